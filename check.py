#!/usr/bin/env python3-vt
"""python3-vt check.py C01   (environment: VERIF_TIER, VERIF_SEED)"""
import importlib
import json
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    pid = sys.argv[1]
    import threading
    from pyvc import driver
    title = pid
    with open(os.path.join(driver.HERE, "properties.jsonl")) as f:
        for l in f:
            d = json.loads(l)
            if d["id"] == pid:
                title = d["title"]
    mod = importlib.import_module("specs." + pid.lower())
    rc = []
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=lambda: rc.append(driver.main(mod.spec, pid, title)))
    t.start()
    t.join()
    return rc[0] if rc else 1


if __name__ == "__main__":
    c = main()
    sys.stdout.flush()
    os._exit(c)

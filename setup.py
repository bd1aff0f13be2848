#!/usr/bin/env python3
"""Compiles every check once, so that the Go build cache is warm."""
import os, shutil, sys, tempfile
import check
e = check.env()
done = set()
for pid, cfg in check.PROPS.items():
    if cfg["pkg"] in done:
        continue
    done.add(cfg["pkg"])
    d = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        check.build(cfg, d, e)
        print("built", cfg["pkg"], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
os.makedirs(os.path.join(check.VERIF, "evidence"), exist_ok=True)

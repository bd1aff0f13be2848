#!/usr/bin/env python3
"""Writes DIR/go.mod and DIR/go.sum for the harness module: the requirements
of /repo plus rapid, with /repo itself replaced in."""
import re, sys, os
RAPID = "pgregory.net/rapid v1.3.0"
def write(d, repo="/repo"):
    src = open(os.path.join(repo, "go.mod")).read()
    mod = re.search(r"^module\s+(\S+)", src, re.M).group(1)
    body = re.sub(r"^module .*$", "", src, flags=re.M)
    body = re.sub(r"^go .*$", "", body, flags=re.M)
    body = re.sub(r"^toolchain .*$", "", body, flags=re.M)
    out = f"module {mod}/verifharness\n\ngo 1.25.0\n\nrequire {mod} v0.0.0\nrequire {RAPID}\n\nreplace {mod} => {repo}\n" + body
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "go.mod"), "w").write(out)
    sums = open(os.path.join(repo, "go.sum")).read()
    open(os.path.join(d, "go.sum"), "w").write(sums)
if __name__ == "__main__":
    write(sys.argv[1])

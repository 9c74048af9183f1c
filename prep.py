#!/usr/bin/env python3
"""Lays out a compilable copy of /repo's working tree for the MIR extraction.

/repo cannot be compiled in place: its git dependency tikv-client is not available offline. The
copy is byte for byte /repo, except Cargo.toml, where tikv-client becomes the signatures-only
stub in /verif/stub (so that, unlike in the test build, the TiKV code is type-checked and analysed
too), the [patch] section goes, and bench/dev-only parts that cargo would have to resolve stay.
"""
import os, re, shutil, sys

def prepare(repo, out, stub):
    os.makedirs(out, exist_ok=True)
    keep = set()
    for top, dirs, files in os.walk(repo):
        if top == repo:
            dirs[:] = [d for d in dirs if d not in (".git", "target")]
        for f in files:
            src = os.path.join(top, f)
            rel = os.path.relpath(src, repo)
            if not os.path.isfile(src) or rel == "Cargo.lock":
                continue
            data = open(src, "rb").read()
            if rel == "Cargo.toml":
                t = data.decode()
                t = re.sub(r"^tikv-client\s*=.*$", 'tikv-client = { path = "%s" }' % stub, t, flags=re.M)
                t = re.sub(r"^\[patch\.crates-io\]\n(?:(?!\[).*\n?)*", "", t, flags=re.M)
                data = (t + "\n[workspace]\n").encode()
            dst = os.path.join(out, rel)
            keep.add(rel)
            if os.path.exists(dst) and open(dst, "rb").read() == data:
                continue
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            with open(dst, "wb") as o:
                o.write(data)
    for top, dirs, files in os.walk(out):
        for f in files:
            rel = os.path.relpath(os.path.join(top, f), out)
            if rel not in keep and rel not in ("Cargo.lock", "Cargo.lock.seen"):
                os.remove(os.path.join(top, f))
    lock = os.path.join(repo, "Cargo.lock")
    seen, dst = os.path.join(out, "Cargo.lock.seen"), os.path.join(out, "Cargo.lock")
    data = open(lock, "rb").read() if os.path.exists(lock) else b""
    if not (os.path.exists(seen) and open(seen, "rb").read() == data and os.path.exists(dst)):
        open(seen, "wb").write(data)
        if data:
            open(dst, "wb").write(data)
        elif os.path.exists(dst):
            os.remove(dst)

if __name__ == "__main__":
    prepare(sys.argv[1], sys.argv[2], sys.argv[3])

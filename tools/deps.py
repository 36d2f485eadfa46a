#!/usr/bin/env python3
"""Puts Hypothesis and its one dependency in /verif/.deps, from the offline wheelhouse or,
failing that, from the tooling venv. Prints the directory."""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEST = os.path.join(HERE, ".deps")
WHEELS = "/opt/veriftools/wheels"
VENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def complete(d):
    return os.path.isdir(os.path.join(d, "hypothesis")) and os.path.isdir(os.path.join(d, "sortedcontainers"))


def build(dest):
    for pat in ("hypothesis-*cp312-*.whl", "sortedcontainers-*.whl"):
        hits = sorted(glob.glob(os.path.join(WHEELS, pat)))
        if not hits:
            break
        with zipfile.ZipFile(hits[-1]) as z:
            z.extractall(dest)
    if not complete(dest):
        for name in ("hypothesis", "sortedcontainers"):
            shutil.copytree(os.path.join(VENV, name), os.path.join(dest, name), dirs_exist_ok=True)
        for so in glob.glob(os.path.join(VENV, "_hypothesis*")):
            (shutil.copytree if os.path.isdir(so) else shutil.copy)(so, os.path.join(dest, os.path.basename(so)))


def main():
    if not complete(DEST):
        tmp = tempfile.mkdtemp(prefix=".deps-", dir=HERE)
        build(tmp)
        if not complete(tmp):
            sys.exit("cannot find Hypothesis")
        try:
            os.rename(tmp, DEST)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
            if not complete(DEST):
                raise
    print(DEST)


main()

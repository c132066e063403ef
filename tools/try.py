#!/usr/bin/env python3
"""Builds a program against the library and runs it: try.py FILE [VARIANT] [UPTO]."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild

b = vbuild.Builder()
with vbuild.Lock():
    exe = None
    exe = b.harness("try", [os.path.abspath(sys.argv[1])],
                    upto=sys.argv[3] if len(sys.argv) > 3 else "dataset",
                    variant=sys.argv[2] if len(sys.argv) > 2 else "main")
sys.exit(subprocess.run([exe, *sys.argv[4:]]).returncode)

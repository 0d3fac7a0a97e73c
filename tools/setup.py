#!/usr/bin/env python3
"""Checks that the tools the checks need are present. The harness itself is built by each check from /repo's tree."""
import shutil, sys, os
ok=shutil.which('cargo') or os.path.exists('/opt/vp/env.sh')
print('cargo:',shutil.which('cargo')); sys.exit(0 if ok else 1)

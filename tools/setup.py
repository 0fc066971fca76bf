#!/usr/bin/env python3
"""Build the harnesses from the committed files (each check builds again what it needs from /repo)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=V + "/target", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
for c in ["rt", "bc", "fbsc", "bs", "mi"]:
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"], cwd=V + "/harness/" + c, env=e)
    if r.returncode:
        sys.exit(r.returncode)

#!/usr/bin/env python3
"""Setup: nothing to build (pure Python); verifies that the interpreter and libraries are there."""
import subprocess
import sys

r = subprocess.run(["/opt/venv/bin/python", "-c",
                    "import fastapi, starlette, anyio, fsspec, pydantic, sys; assert sys.version_info >= (3, 12)"])
sys.exit(r.returncode)

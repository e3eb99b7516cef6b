"""Builds the instrumented drivers of C26."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c26  # noqa: E402

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
e = {k: v for k, v in os.environ.items() if not k.startswith(("RUSTFLAGS", "CARGO_BUILD", "CARGO_PROFILE", "RUSTC_WRAPPER"))}
err = c26.prebuild(ROOT, e)
if err:
    print(err)
    sys.exit(1)

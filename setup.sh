#!/bin/bash
# Nothing to install: the checks are Python run by the preinstalled python3-vt and use the preinstalled toolchain.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence .build
export PYTHONDONTWRITEBYTECODE=1
python3-vt -c 'import sys; sys.path.insert(0,"."); import z3, vsym.runner; print("z3", z3.get_version_string())'
RUSTUP_TOOLCHAIN=nightly-2023-07-30 rustc --version

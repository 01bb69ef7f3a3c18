#!/bin/bash
# Nothing is kept between runs: setup only checks that the tools the checks need are there.
set -e
export PATH="/root/.cargo/bin:$PATH"
cargo --version
python3-vt -c 'import json'

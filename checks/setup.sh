#!/bin/bash
# Every check builds what it needs itself; this only shows early that the tree builds.
set -e
cd "$(dirname "$0")/.."
make -s -j8 -C harness FLAVOR=plain lgmon

#!/bin/sh
# Nothing is prebuilt: every check extracts, instruments and proves from /repo's current tree. Only report the tools.
set -e
cbmc --version; goto-instrument --version; clang --version | head -1; python3 --version

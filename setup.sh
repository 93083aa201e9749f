#!/bin/bash
# Most checks are pure Python on the repository's own interpreter; C11 needs a small shared library.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -W ignore -c "import numpy, rx, docopt" || exit 1
mkdir -p evidence replays build
tmp=build/faultfs.$$.so
gcc -O1 -Wall -shared -fPIC -o "$tmp" native/faultfs.c -ldl && mv "$tmp" build/faultfs.so

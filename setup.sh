#!/bin/bash
V="$(cd "$(dirname "$0")" && pwd)"
exec python3 "$V/tools/build.py" all

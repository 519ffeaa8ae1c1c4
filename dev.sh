#!/bin/sh
# development helper: run harness entries matching a pattern
cd "$(dirname "$0")"
E=$(grep -oE '::h_[a-z0-9_]+' harness/src/main.rs | tr -d : | grep -E "$1" | paste -sd,)
VS_LIMIT=${3:-600} python3 check.py --entry $E ${2:-quick} 2>&1 | grep -v '^$'

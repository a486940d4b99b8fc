#!/bin/bash
# builds the native extensions of /repo's current tree in both flavours (cached under .cache, outside /repo)
cd "$(dirname "$0")" && exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m vf.native plain asan

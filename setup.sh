#!/bin/bash
# Builds the symbolic execution engine (offline, about 30 s).
set -e
cd "$(dirname "$0")"
make -C engine symex

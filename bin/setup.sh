#!/bin/sh
# builds the engine and, for each configuration the checks use, the dependencies, the harness and the replay binary
cd "$(dirname "$0")/.." && exec python3 bin/setup.py

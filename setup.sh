#!/bin/bash
# builds the extractor and the dependency stand-ins and analyses the current tree once
cd "$(dirname "$0")" || exit 2
exec python3-vt -m sa.build

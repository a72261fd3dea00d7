#!/usr/bin/env python3
"""Builds the MIR driver and extracts the current tree once (the checks do the same on their own when needed)."""
import core
print(core.extract())

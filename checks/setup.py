#!/usr/bin/env python3
"""Build the analyser (the checks also build it when it is absent)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
ir.tool('qai')
ir.tool('qacg')
print('analyser ready')

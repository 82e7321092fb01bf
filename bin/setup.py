#!/usr/bin/env python3
"""builds the extractor (also done on demand by every check)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
import prog
prog.build_tool()
print('extractor ready:', prog.TOOL)

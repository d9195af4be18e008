#!/usr/bin/env python3-vt
"""builds the extractor (tools/irx.cpp)"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'lib'))
from build import irx_bin
print(irx_bin())

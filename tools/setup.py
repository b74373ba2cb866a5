"""Builds every driver once (the checks then build incrementally)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.build("all")

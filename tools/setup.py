"""Builds the Java operators and the harness."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import infra
infra.build_java()
infra.build_harness()
infra.build_harness(util=True)
print("built")

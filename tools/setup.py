#!/usr/bin/env python3
"""Checks that the installed tools the checks rely on are present (nothing has to be built ahead)."""
import shutil, sys, os
need = ['clang++', 'g++', 'why3', 'z3', 'cvc5']
miss = [t for t in need if not shutil.which(t)]
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence', 'replay'), exist_ok=True)
print('missing: ' + ' '.join(miss) if miss else 'tools present: ' + ' '.join(need))
sys.exit(1 if miss else 0)

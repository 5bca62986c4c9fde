#!/usr/bin/env python3
"""Checks that the tools the checks need are present; nothing is built here."""
import shutil, sys
missing = [t for t in ('why3', 'z3', 'cvc5', 'clang++-18', 'g++') if not shutil.which(t)]
opt = [t for t in ('z3-new', 'eprover') if not shutil.which(t)]
print('missing: %s; optional missing: %s' % (missing, opt))
sys.exit(1 if missing else 0)

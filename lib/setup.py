#!/usr/bin/env python3
"""Builds every check's programs once, so that the checks themselves start from a warm object store."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from checks import CHECKS
try:
    for i in sorted(CHECKS):
        for s in CHECKS[i]['programs']:
            vbuild.build(s.get('flavor', 'asan'), s['name'], s['sources'], link=s.get('link', ()), cflags=s.get('cflags', ()))
            print('built', i, s['name'])
except vbuild.BuildError as e:
    print('ERROR: %s' % e)
    sys.exit(2)

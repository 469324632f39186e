#!/usr/bin/env python3
"""Appends to known_findings.txt (development helper, never called by a check).
usage: known.py finding PID KEY TEXT | fixed PID COMMIT TEXT"""
import os, sys
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt')
kind, pid, a, text = sys.argv[1:5]
with open(f, 'a') as o:
    if kind == 'finding':
        o.write('finding: property=%s key=%s %s\n' % (pid, a.replace(' ', '_'), text))
    else:
        o.write('fixed: property=%s %s %s\n' % (pid, a, text))

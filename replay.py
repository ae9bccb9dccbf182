#!/usr/bin/env python3-vt
"""replay.py <property> <harness seed> [seconds]: run the replay harness of a property against the real code"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + '/engine')
import build
os.environ.setdefault('ASAN_OPTIONS', 'detect_leaks=0')
exe = build.harness(sys.argv[1])
os.execv(exe, [exe, sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else '40'])

#!/usr/bin/env python3
"""prints the incomplete list of an evidence file"""
import json
import sys


def find(o, k):
    if isinstance(o, dict):
        for a, b in o.items():
            if a == k:
                yield b
            yield from find(b, k)
    elif isinstance(o, list):
        for x in o:
            yield from find(x, k)


for name in sys.argv[1:]:
    for i in find(json.load(open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/evidence/%s.json' % name.upper())), 'incomplete'):
        if isinstance(i, list):
            for x in i:
                print(name, str(x)[:200])
            break

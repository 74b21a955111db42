#!/usr/bin/env python3
import json,sys
d=json.load(open(sys.argv[1])); print(d['message']); print('\n'.join(d.get('trace') or [])[-3000:])

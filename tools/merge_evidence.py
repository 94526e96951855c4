#!/usr/bin/env python3
# adds the numbers of the AddressSanitizer run to the evidence of the plain one
import json, sys
a = json.load(open(sys.argv[1])); b = json.load(open(sys.argv[2]))
a['coverage']['with_address_sanitizer'] = {k: v for k, v in b['coverage'].items() if not isinstance(v, (list, dict)) and k != 'rule'}
json.dump(a, open(sys.argv[1], 'w'), indent=1)

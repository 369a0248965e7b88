#!/bin/bash
# Development aid: mkseed with the storage demo header expanded at @HDR@.
python3 -c "
import sys
s=sys.stdin.read().replace('@HDR@\n',open('/verif/tools/demo_storage_header.txt').read());sys.stdout.write(s)" | python3 /verif/tools/mkseed.py

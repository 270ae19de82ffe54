#!/usr/bin/env python3
"""irdump.py FILE.opt.ll SUBSTR: print matching functions without debug noise (development aid)."""
import re, sys
s = open(sys.argv[1]).read()
for m in re.finditer(r'^define[^\n]*?%s[^\n]*\n.*?^}\n' % re.escape(sys.argv[2]), s, re.S | re.M):
    t = re.sub(r', !dbg !\d+|, !tbaa !\d+', '', m.group(0))
    t = re.sub(r'\n[^\n]*llvm\.dbg[^\n]*', '', t)
    print(t)

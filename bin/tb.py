#!/usr/bin/env python3
# developer helper: build and run   tb.py FLAVOUR PROP [args]
import sys,subprocess,os
sys.path.insert(0,'/verif/bin'); import vbuild, check
exe,info=vbuild.build(sys.argv[1],'shellmon',check.sources(sys.argv[1])); print(info,file=sys.stderr)
if len(sys.argv)>2: os.execv(exe,[exe]+sys.argv[2:])

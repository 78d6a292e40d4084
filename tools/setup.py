#!/usr/bin/env python3
"""nothing is prepared ahead: checks build from /repo's current tree. This only reports missing tools."""
import shutil, sys
m=[t for t in('g++','clang++','nasm','cmake','objdump','as') if not shutil.which(t)]
if m: print('missing tools: '+' '.join(m)); sys.exit(1)
print('tools present')

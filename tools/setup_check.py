#!/usr/bin/env python3
"""setup_cmd: nothing has to be installed; verify that the tools the checks rely on are there"""
import shutil,sys,subprocess
missing=[t for t in ('g++','valgrind','python3') if not shutil.which(t)]
if missing: print('missing tools:',missing); sys.exit(1)
subprocess.run(['g++','--version'],check=True)

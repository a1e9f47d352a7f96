#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines ID, PROP, FILE (or EDITS=[(file,old,new)..]), NEEDS, BREAKS, DEMO (C++), LIBS"""
import sys, os, json, subprocess
spec={}; exec(open(sys.argv[1]).read(), spec)
ID=spec['ID']; d=f'/tmp/seeds/{ID}'; os.makedirs(d,exist_ok=True)
S='/tmp/seedws'; subprocess.run(['git','-C',S,'checkout','-q','--','.'],check=True)
for f,o,n in spec['EDITS']:
    p=f'{S}/{f}'; t=open(p).read(); assert t.count(o)==1,(f,t.count(o),o); open(p,'w').write(t.replace(o,n))
diff=subprocess.run(['git','-C',S,'diff'],capture_output=True,text=True).stdout
open(f'{d}/patch.diff','w').write(diff); subprocess.run(['git','-C',S,'checkout','-q','--','.'],check=True)
json.dump(dict(property=spec['PROP'],needs=spec['NEEDS'],what_it_breaks=spec['BREAKS']),open(f'{d}/meta.json','w'),indent=1)
open(f'{d}/demo.cc','w').write(spec['DEMO'].lstrip())
open(f'{d}/demo.sh','w').write('''#!/bin/bash
# Compiles demo.cc against the freshly built libraries of /repo and runs it in a scratch directory.
set -u
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
B=/repo/_build
L=$(find $B/lib $B/projects -name 'lib*.a' | grep -v -i test)
g++ -std=gnu++20 -O1 -w -DBOOST_ENABLE_ASSERT_DEBUG_HANDLER -DFMT_SHARED -DLF_REDIRECT_ASSERTS -DSPDLOG_ACTIVE_LEVEL=SPDLOG_LEVEL_TRACE \\
  -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -I/repo/lib -I/repo/projects/dpg -I/repo -isystem /usr/include/eigen3 \\
  -o "$T/demo" "$H/demo.cc" %s -Wl,--start-group $L -Wl,--end-group -lspdlog -lfmt -lboost_program_options -lbacktrace -ldl || exit 3
cd "$T" && ./demo
''' % spec.get('SRC',''))
os.chmod(f'{d}/demo.sh',0o755); print(diff)

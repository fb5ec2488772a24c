#!/bin/bash
# compiles the evaluators (kept in .build/, which checks also rebuild on demand) and checks them against the TLA+ definitions
cd "$(dirname "$0")" && exec /usr/bin/python3 - <<'P'
import sys, tempfile, shutil
sys.path.insert(0, "harness")
import run
jb = run.build_java()
d = tempfile.mkdtemp()
rc, out, a, b = run.tlc(jb, d, "MatSelf", workers=4)
shutil.rmtree(d)
print(run.brief(out) if rc else "MatSelf: %d states, evaluators agree with their definitions" % b)
sys.exit(rc)
P

#!/usr/bin/env python3
import sys,os
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import driver
h=c=None
for l in open(sys.argv[1]):
    if l.startswith("harness "): h=l.split()[1]
    if l.startswith("case "): c=l[5:].strip()
b=driver.build([h])
os.environ["SYMX_STDERR"]="1"
out=driver.replay_cases(b[h][1],[c])
print(out[0]); sys.exit(1 if out[0].startswith("VIOLATION") else 0)

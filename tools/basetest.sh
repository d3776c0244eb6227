#!/bin/bash
# Runs the existing suite of /repo and compares with the baseline.
bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'))
s=set(b['stable']);p=set(o['passed']);print(len(s),len(s&p),s-p)
P
rm -f /tmp/o.json

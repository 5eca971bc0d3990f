#!/bin/bash
# mk.sh ID: lays the shared demonstration files into seeded/ID (which has its
# own patch.diff, meta.json and demo.py or demo_test.go.txt)
here=$(cd "$(dirname "$0")" && pwd)
d=$here/../seeded/$1
cp "$here/demo.sh" "$here/smtpd_stub.go.txt" "$here/dnshook.go.txt" "$d/"
[ -f "$d/demo.py" ] && cp "$here/demolib.py" "$d/"
chmod +x "$d/demo.sh"

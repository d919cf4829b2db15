#!/usr/bin/env python3
"""Offline set-up: parse every specification and build the harnesses once, so that problems show early."""
import os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.abspath(__file__))
bad = 0
w = tempfile.mkdtemp(prefix='vsetup-')
try:
    for f in os.listdir(V + '/spec'):
        shutil.copy(os.path.join(V, 'spec', f), w)
    for f in sorted(os.listdir(w)):
        r = subprocess.run(['java', '-Djava.io.tmpdir=' + w, '-cp', '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tla2sany.SANY', f],
                           cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode or b'*** Errors' in r.stdout or b'Fatal' in r.stdout:
            bad = 1
            print(f, 'does not parse:\n', r.stdout.decode()[-2000:])
finally:
    shutil.rmtree(w, ignore_errors=True)
print('setup: specifications', 'FAILED' if bad else 'parsed')
sys.exit(bad)

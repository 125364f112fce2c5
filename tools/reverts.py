#!/usr/bin/env python3
"""Confirms that every repaired finding of known-findings.txt is reported again when its repair is taken back (scratch copies)."""
import re, subprocess, shutil, os
for l in open('/verif/known-findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\w+) (.*)', l)
    if not m: continue
    p, c, _ = m.groups(); d = '/tmp/rv/' + p + c; shutil.rmtree(d, ignore_errors=True); os.makedirs('/tmp/rv', exist_ok=True)
    subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    if c == '39c99d5': # later repairs build on this one: its test is made to accept everything instead
        s = open(d + '/src/modbus_master.c').read(); o = 'if (RET_OK != modbus_master_check_slave_resp(msg_buf))'; assert o in s
        open(d + '/src/modbus_master.c', 'w').write(s.replace(o, 'if (0)')); cmd = ['true']
    else: cmd = None
    r = subprocess.run(cmd or ['git', '-C', d, '-c', 'user.name=x', '-c', 'user.email=x@x', 'revert', '--no-edit', '-Xtheirs', c], capture_output=True, text=True)
    if r.returncode: print(p, c, 'REVERT FAILED', r.stderr[-200:]); continue
    q = subprocess.run(['python3', '/verif/check.py', p, '--src', d + '/src'], capture_output=True, text=True)
    print(p, c, 'reported' if q.returncode == 1 else 'NOT REPORTED rc%d' % q.returncode, [x for x in q.stdout.splitlines() if 'VIOLATION' not in x][:1], q.stderr[-300:], flush=True)
    shutil.rmtree(d)

"""setup: build the SSA front end and warm the Go build cache with the harness' dependencies"""
import os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
check.build_ssadump()
d = tempfile.mkdtemp(prefix='gowp-setup-')
res = {}
check.harness('none', d, 'quick', 1, res)
shutil.rmtree(d, ignore_errors=True)
print('setup ok', res.get('error') or '')

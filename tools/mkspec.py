"""Take the reference sources from /repo's committed tree (run after review only)."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'sa'))
import load
DST = os.path.join(load.SPEC, 'ref')
if os.path.isdir('/verif/spec/ref'):
    shutil.rmtree('/verif/spec/ref')
files = subprocess.check_output(['git', '-C', '/repo', 'ls-files'], text=True).split()
for f in files:
    base = os.path.basename(f)
    if not (f.endswith('.py') or f.startswith('compressor/') and f.endswith(('.h', '.cc'))) or base.endswith(('_test.py', '_test.cc', '_sample.cc')) or f.startswith('test'):
        continue
    os.makedirs(os.path.dirname(os.path.join(DST, f)), exist_ok=True)
    shutil.copyfile(os.path.join('/repo', f), os.path.join(DST, f))
out = {}
fs = load.read_all(DST)
todo = [r for r in sorted(fs) if fs[r][1] is None]
data = load.jython_dump([os.path.join(DST, r) for r in todo])
for r in todo:
    out[fs[r][0]] = data[os.path.join(DST, r)]
json.dump(out, open(os.path.join(load.SPEC, 'py2ast.json'), 'w'), separators=(',', ':'), sort_keys=True)
print(len(fs), 'files', len(out), 'py2 trees')

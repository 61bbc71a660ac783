#!/usr/bin/env python3
"""replay.py PROP FILE: runs the one case a replay file names against /repo's current sources."""
import os, sys, json, tempfile, shutil, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import PROPS
from hbuild import build
prop, f = sys.argv[1], sys.argv[2]
d = json.load(open(f))
conf = PROPS[prop]
work = tempfile.mkdtemp(prefix='verif_replay_')
try:
    exe, err = build(os.environ.get('VERIF_REPO', '/repo'), work, conf['harness'], tuple(conf.get('harness_dirs', ())))
    if not exe:
        print(err)
        sys.exit(1)
    os.makedirs(work + '/np')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', TYPELIB_PLUGIN_PATH=work + '/np', HARNESS_TMP=work)
    rc = subprocess.call([exe, str(d['seed']), '60', '1', work + '/r.json', str(d['case'])], env=env, cwd=work)
    print('status', rc)
    sys.exit(1 if rc else 0)
finally:
    shutil.rmtree(work, ignore_errors=True)

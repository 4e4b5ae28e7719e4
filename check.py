#!/usr/bin/env python3-vt
"""check.py <property-id> [quick|thorough] -- run one property's monitor; check.py --setup builds everything."""
import importlib.util, os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
sys.dont_write_bytecode = True
import vp

if sys.argv[1] == '--setup':
    tools = ['qbsp', 'vis', 'light', 'bsputil', 'bspinfo', 'maputil']
    hs = [f[:-3] for f in os.listdir(os.path.join(ROOT, 'harness')) if f.endswith('.cc')]
    for variant, ts in (('san', tools + hs), ('tsan', ['qbsp', 'vis', 'light'])):
        try:
            vp.build(variant, ts)
        except vp.Broken as e:  # each check builds what it needs and reports on its own
            print('setup: %s: %s' % (variant, e))
    sys.exit(0)
pid = sys.argv[1]
spec = importlib.util.spec_from_file_location('chk', os.path.join(ROOT, 'checks', pid + '.py'))
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
sys.exit(vp.main(pid, mod.check))

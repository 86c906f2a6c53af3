"""Development aid: runs only the proof of one property and shows everything."""
import sys, os
sys.path[:0] = [os.path.dirname(__file__), os.path.dirname(os.path.dirname(__file__))]
os.environ.setdefault('VERIF_TIER', 'quick')
sys.argv = ['check.py', sys.argv[1], *sys.argv[2:]]
only = sys.argv[2] if len(sys.argv) > 2 else None
import importlib.util
spec = importlib.util.spec_from_file_location('check', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'check.py'))
sys.argv = sys.argv[:2]
check = importlib.util.module_from_spec(spec); spec.loader.exec_module(check)
import importlib
if only:
    mod = importlib.import_module(f'contracts.{check.ID.lower()}')
    mod.UNITS = [u for u in mod.UNITS if u.__name__ == only]
for p in check.prove():
    print('==', p['unit'], p['status'], 'verified', p.get('verified'), 'errors', p.get('errors'), 'wall', p.get('wall_s'), 'smt', p.get('smt_ms'), 'vac', p.get('vacuity_failed_as_expected'), '/', p.get('vacuity_expected'), 'helpers', p.get('helpers'))
    if p['status'] != 'ok':
        for m in p.get('messages') or []: print(m)
        for m in p.get('obligations_failed') or []: print('  OBL', m)

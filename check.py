#!/usr/bin/env python3
"""check.py <property> [--thorough] [--replay FILE] [--only NAME]   (re-executes itself under the project's interpreter)"""
import os, sys
VENV = '/opt/venv/bin/python'
if os.environ.get('VERIF_REEXEC') != '1' and os.path.exists(VENV):
    env = dict(os.environ, VERIF_REEXEC='1', PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', MKL_NUM_THREADS='1', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONWARNINGS='ignore')
    env['LD_LIBRARY_PATH'] = '/opt/venv/lib:' + env.get('LD_LIBRARY_PATH', '')
    env.setdefault('MPLCONFIGDIR', '/tmp/mpl_verif')
    os.execve(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:], env)

if __name__ == '__main__':
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    from engine import runner
    a = sys.argv[1:]
    if a[0] == '--selftest':
        from engine import selftest
        sys.exit(selftest.main())
    prop = a[0]
    if '--replay' in a:
        sys.exit(runner.replay(prop, a[a.index('--replay') + 1]))
    only = a[a.index('--only') + 1] if '--only' in a else None
    tier = 'thorough' if '--thorough' in a or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    sys.exit(runner.main(prop, tier, only))

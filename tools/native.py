#!/opt/veriftools/pyvenv/bin/python
"""native.py n_x.c [secs] [seed]: build one harness against /repo and run it once (development aid)."""
import sys, os, subprocess, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
wd = tempfile.mkdtemp(prefix='vpn_')
try:
    inc = [a[4:] for a in sys.argv if a.startswith('inc=')]
    av = [a for a in sys.argv if not a.startswith('inc=')]
    exe, err = check.build_native(dict(native=av[1], native_include=inc), wd, None)
    if err:
        print(err)
        sys.exit(2)
    secs = av[2] if len(av) > 2 else '5'
    r = subprocess.run([exe, '--seed', av[3] if len(av) > 3 else '1', '--secs', secs, '--tier', '0'], cwd=wd, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:handle_abort=0:exitcode=4'), stdout=subprocess.DEVNULL)
    print('exit', r.returncode)
finally:
    shutil.rmtree(wd, ignore_errors=True)

import sys


def main():
    if len(sys.argv) < 2:
        print('usage: python3 -m vf check <id>... | all | emit')
        return 2
    from . import core, checks
    cmd = sys.argv[1]
    if cmd == 'check':
        rc = 0
        for p in sys.argv[2:]:
            r = core.run(p)
            rc = max(rc, r)
        return rc
    if cmd == 'all':
        import subprocess, os, time
        from concurrent.futures import ThreadPoolExecutor
        ids = sys.argv[2:] or sorted(checks.MODULES)

        def one(p):
            t = time.time()
            r = subprocess.run([sys.executable, '-m', 'vf', 'check', p], capture_output=True, text=True)
            return p, r.returncode, time.time() - t, r.stdout + r.stderr
        bad = 0
        with ThreadPoolExecutor(8) as ex:
            for p, rc, dt, out in ex.map(one, ids):
                print('%s rc=%d %.1fs %s' % (p, rc, dt, out.strip().splitlines()[-1][:150] if out.strip() else ''))
                if rc:
                    bad += 1
                    print(out)
        return 1 if bad else 0
    if cmd == 'setup':
        from . import isl, llvm
        import os
        os.makedirs(os.path.join(core.ROOT, 'evidence'), exist_ok=True)
        print('libisl and libLLVM are available')
        return 0
    if cmd == 'emit':
        from . import emit
        return emit.main()
    return 2


sys.exit(main())

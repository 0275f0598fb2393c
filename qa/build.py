"""Builds the extractor and dumps the MIR of /repo's current working tree."""
import os, subprocess, sys, json, glob, shutil, fcntl, time, hashlib

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, 'build')
REPO = '/repo'
DRIVER = os.path.join(B, 'driver', 'release', 'qdriver')
STOP = 'nalgebra::,matrixmultiply::,rawpointer::,core::fmt,std::fmt,alloc::fmt,std::io::,std::panicking,std::rt::,std::thread,std::sys,std::alloc,alloc::raw_vec,core::panicking,core::io,alloc::alloc'


def run(cmd, cwd, env):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit('build step failed: %s' % ' '.join(cmd))
    return r.stdout


def src_hash():
    h = hashlib.sha256()
    for root, ds, fs in os.walk(REPO):
        ds[:] = sorted(d for d in ds if d not in ('target', '.git'))
        for f in sorted(fs):
            if f.endswith('.rs') or f in ('Cargo.toml', 'Cargo.lock'):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    for p in sorted(glob.glob(os.path.join(V, 'roots', 'src', '*.rs')) + glob.glob(os.path.join(V, 'driver', 'src', '*.rs'))) + [
            os.path.join(V, 'roots', 'Cargo.toml'), os.path.abspath(__file__)]:
        h.update(open(p, 'rb').read())
    return h.hexdigest()


def driver(env):
    run(['cargo', '+nightly', 'build', '--offline', '--release'], os.path.join(V, 'driver'),
        dict(env, CARGO_TARGET_DIR=os.path.join(B, 'driver')))


def mir():
    """Path of the JSON dump for the current tree, and the hash of the sources it was made from."""
    os.makedirs(os.path.join(B, 'mir'), exist_ok=True)
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC'):
        env.pop(k, None)
    env['CARGO_NET_OFFLINE'] = 'true'
    with open(os.path.join(B, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = src_hash()
        out = os.path.join(B, 'mir', 'mir-%s.json' % h[:24])
        if not os.path.exists(out):
            driver(env)
            for f in glob.glob(os.path.join(B, 'mir', 'mir-*.json')):
                os.remove(f)
            tgt = os.path.join(B, 'mir', 'target')
            # nothing of the tree under analysis may be taken from an earlier build
            for pat in ('qlab*', 'calendar*', 'qroots*'):
                for sub in ('.fingerprint', 'build', 'incremental'):
                    for f in glob.glob(os.path.join(tgt, 'debug', sub, pat)):
                        shutil.rmtree(f, ignore_errors=True)
            sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True, env=env).stdout.strip()
            e = dict(env, LD_LIBRARY_PATH=sysroot + '/lib', RUSTC_WRAPPER=DRIVER, QDRIVER_OUT=out, QDRIVER_STOP=STOP,
                     RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums -Coverflow-checks=on -Cdebug-assertions=on --cap-lints=allow',
                     CARGO_TARGET_DIR=tgt)
            o = run(["cargo", "+nightly", "check", "--offline"], os.path.join(V, 'roots'), e)
            if not os.path.exists(out):
                raise SystemExit("the extractor wrote nothing\n" + o)
        return out, h


if __name__ == '__main__':
    t = time.time()
    print(mir(), '%.1fs' % (time.time() - t))

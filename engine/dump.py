"""Build the rustc driver if needed and dump the type-checked MIR of /repo's current working tree."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
REPO = os.environ.get('VERIF_REPO', '/repo')
MIRFLAGS = ['-Zmir-opt-level=0', '-Zalways-encode-mir', '-C', 'debug-assertions=off', '-C', 'overflow-checks=on']


class DumpError(Exception):
    pass


def sh(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def base_env():
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR'):
        env.pop(k, None)
    rc, out = sh(['rustc', '+nightly', '--print', 'sysroot'])
    if rc:
        raise DumpError('nightly toolchain: ' + out)
    env['LD_LIBRARY_PATH'] = out.strip().splitlines()[-1] + '/lib'
    return env


def h(path):
    return hashlib.sha256(open(path, 'rb').read()).hexdigest()[:16]


def setup():
    """driver binary and prelude dump, keyed by their sources"""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'driver', 'driver.rs')
    pre = os.path.join(VERIF, 'prelude', 'prelude.rs')
    drv = os.path.join(BUILD, 'driver-' + h(src))
    prj = os.path.join(BUILD, 'prelude-%s-%s.json' % (h(src), h(pre)))
    env = base_env()
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(drv):
            tmp = drv + '.tmp'
            rc, out = sh(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', tmp], env=env, cwd=BUILD)
            if rc:
                raise DumpError('driver build failed:\n' + out)
            os.replace(tmp, drv)
        if not os.path.exists(prj):
            e = dict(env, VERIF_MIR_OUT=prj + '.tmp', VERIF_MIR_CRATE='prelude')
            rc, out = sh([drv, 'rustc', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'prelude'] + MIRFLAGS +
                         ['--emit=metadata', '-o', os.path.join(BUILD, 'libprelude.rmeta'), pre], env=e, cwd=BUILD)
            if rc or not os.path.exists(prj + '.tmp'):
                raise DumpError('prelude dump failed:\n' + out)
            os.replace(prj + '.tmp', prj)
    return drv, prj, env


def dump():
    """(repo dump, prelude dump) as parsed JSON, from the current working tree"""
    drv, prj, env = setup()
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(BUILD, 'mir-%d.json' % os.getpid())
        tgt = os.path.join(BUILD, 'target')
        # cargo's freshness cache would skip the wrapper on an unchanged tree
        for p in (os.path.join(tgt, 'debug', 'build', 'rustdht'),):
            shutil.rmtree(p, ignore_errors=True)
        fp = os.path.join(tgt, 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith('rustdht-'):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        e = dict(env, VERIF_MIR_OUT=out, VERIF_MIR_CRATE='rustdht', RUSTC_WORKSPACE_WRAPPER=drv,
                 RUSTFLAGS=' '.join(MIRFLAGS), CARGO_INCREMENTAL='0')
        rc, log = sh(['cargo', '+nightly', 'check', '--offline', '--lib', '--manifest-path', REPO + '/Cargo.toml', '--target-dir', tgt],
                     env=e, cwd=REPO)
        if rc or not os.path.exists(out):
            raise DumpError('cargo check of the working tree failed:\n' + log[-4000:])
        d = json.load(open(out))
        os.remove(out)
    return d, json.load(open(prj))


if __name__ == '__main__':
    setup()
    d, p = dump()
    print('driver and dump ready: %d functions, %d impls' % (len(d['fns']), len(d['impls'])))

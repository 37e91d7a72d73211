"""Front end: has nightly rustc type-check /repo's current source and dump its MIR, one dump per feature set."""
import fcntl, glob, os, secrets, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BUILD = os.path.join(ROOT, 'build')
REPO = os.environ.get('VERIF_REPO', '/repo')

# feature sets; the name is used in reports
CONFIGS = {
    'default': '', 'hashbrown': 'hashbrown', 'rocksdb': 'rocksdb bincode',
    'bincode': 'bincode', 'json': 'json', 'cbor': 'cbor', 'yaml': 'yaml', 'pickle': 'pickle', 'ron': 'ron',
    'fxhash': 'fxhash', 'seahash': 'seahash', 'blake2-rfc': 'blake2-rfc', 'keccak': 'keccak', 'sha2': 'sha2', 'sha3': 'sha3',
    'groestl': 'groestl', 'blake2b': 'blake2b', 'md2': 'md2', 'md4': 'md4', 'md5': 'md5', 'ripemd160': 'ripemd160', 'ripemd320': 'ripemd320', 'sha1': 'sha1',
    'rust_sha2': 'rust_sha2', 'rust_sha3': 'rust_sha3', 'rust_keccak': 'rust_keccak', 'whirlpool': 'whirlpool',
}


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip()


def env_for(config, **extra):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'target'), CARGO_INCREMENTAL='0', **extra)
    for v in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC'):
        env.pop(v, None)
    if 'rocksdb' in config:
        # only type-checking: the native library is never linked, so it need not be built
        nolib = os.path.join(BUILD, 'nolib')
        os.makedirs(nolib, exist_ok=True)
        env.update(ROCKSDB_LIB_DIR=nolib, ROCKSDB_STATIC='0')
    return env


def fresh_cargo(cmd, cwd, env):
    """Runs cargo after dropping whatever it remembers of the crate, so that the current source is compiled."""
    target = env['CARGO_TARGET_DIR']
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for p in glob.glob(target + '/debug/.fingerprint/starling-*') + glob.glob(target + '/debug/build/starling*') + glob.glob(target + '/debug/.fingerprint/witness-*'):
            shutil.rmtree(p, ignore_errors=True)
        return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True)


def dump(config, out, sr=None):
    """Type-check /repo/src with `config`'s features and write its MIR to `out`; the nonce proves the dump is this run's.
    "<config>+release" compiles debug assertions out, as an optimised build does (overflow checks stay)."""
    sr = sr or sysroot()
    config, _, mode = config.partition('+')
    nonce = secrets.token_hex(8)
    env = env_for(config, LD_LIBRARY_PATH=sr + '/lib', RUSTC_WORKSPACE_WRAPPER=os.path.join(BUILD, 'mirdump'), MIRDUMP_CRATE='starling',
                  MIRDUMP_OUT=out, MIRDUMP_NONCE=nonce,
                  MIRDUMP_ARGS='-Cdebug-assertions=off -Coverflow-checks=on' if mode == 'release' else '')
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(out):
        os.unlink(out)
    r = fresh_cargo(['cargo', '+nightly', 'check', '--offline', '--lib', '-q', '--features', CONFIGS[config]], REPO, env)
    if r.returncode != 0:
        raise BuildError('features "%s": %s' % (CONFIGS[config], r.stderr[-1500:]))
    if not os.path.exists(out):
        raise BuildError('no dump was written for features "%s"' % CONFIGS[config])
    with open(out) as f:
        import json
        if json.load(f).get('nonce') != nonce:
            raise BuildError('the dump for features "%s" is not from this run' % CONFIGS[config])


if __name__ == '__main__' and sys.argv[1:2] == ['warm']:
    sr = sysroot()
    bad = 0
    for c in sys.argv[2:] or CONFIGS:
        t = time.time()
        try:
            dump(c, os.path.join(BUILD, 'warm.json'), sr)
            print('warmed', c, round(time.time() - t, 1), 's', flush=True)
        except BuildError as e:
            bad = 1
            print('cannot warm', c, e, flush=True)
    if os.path.exists(os.path.join(BUILD, 'warm.json')):
        os.unlink(os.path.join(BUILD, 'warm.json'))
    sys.exit(bad)

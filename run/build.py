"""Regenerates the symbolic subject from /repo's current source and builds everything a check needs."""
import fcntl, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['RUSTFLAGS'] = '--cap-lints=allow'
    e['RUSTUP_TOOLCHAIN'] = 'stable'
    e.pop('CARGO_TARGET_DIR', None)
    return e


def cargo(crate, target, release):
    args = ['cargo', 'build', '--offline', '--quiet', '--target-dir', os.path.join(BUILD, target)] + (['--release'] if release else [])
    return subprocess.Popen(args, cwd=os.path.join(VERIF, 'engine', crate) if not os.path.isabs(crate) else crate, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def finish(p, what):
    out, _ = p.communicate()
    if p.returncode != 0:
        raise BuildError('%s failed to build:\n%s' % (what, out[-4000:]))


def sync(src, dst):
    """Copies only what differs, so that unchanged files keep their time stamps."""
    want = {}
    for root, _, files in os.walk(src):
        for f in files:
            p = os.path.join(root, f)
            want[os.path.relpath(p, src)] = open(p, 'rb').read()
    for root, _, files in os.walk(dst):
        for f in files:
            p = os.path.join(root, f)
            if os.path.relpath(p, dst) not in want:
                os.remove(p)
    for rel, data in want.items():
        p = os.path.join(dst, rel)
        if os.path.exists(p) and open(p, 'rb').read() == data:
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'wb').write(data)


def generate(mode):
    subject = os.path.join(BUILD, 'subject')
    tmp = os.path.join(BUILD, 'subject.tmp')
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    r = subprocess.run([os.path.join(BUILD, 't_rw', 'debug', 'rewrite'), os.path.join(REPO, 'src'), os.path.join(tmp, 'src')] + mode, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError('the source could not be rewritten:\n' + r.stdout[-4000:])
    toml = open(os.path.join(REPO, 'Cargo.toml')).read()
    open(os.path.join(tmp, 'Cargo.toml'), 'w').write(toml + '\n[dependencies.sym]\npath = "../../engine/sym"\n\n[workspace]\n')
    sync(tmp, subject)
    shutil.rmtree(tmp, ignore_errors=True)


def placeholder():
    """A subject that lets cargo resolve the workspace before the real one has been generated."""
    subject = os.path.join(BUILD, 'subject')
    if not os.path.exists(os.path.join(subject, 'Cargo.toml')):
        os.makedirs(os.path.join(subject, 'src'), exist_ok=True)
        open(os.path.join(subject, 'Cargo.toml'), 'w').write(open(os.path.join(REPO, 'Cargo.toml')).read() + '\n[dependencies.sym]\npath = "../../engine/sym"\n\n[workspace]\n')
        open(os.path.join(subject, 'src', 'lib.rs'), 'w').write('')


def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    start = time.time()
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        rw = cargo('rewrite', 't_rw', False)
        real = cargo('harness_real', 't_real', False)
        dep = cargo('sym', 't_sym', True)
        finish(rw, 'the rewriter')
        generate([])
        finish(dep, 'the engine')
        try:
            finish(cargo('harness_sym', 't_sym', True), 'the symbolic subject')
        except BuildError as first:
            # numeric casts that the typed rewriting cannot handle
            generate(['raw'])
            try:
                finish(cargo('harness_sym', 't_sym', True), 'the symbolic subject')
            except BuildError:
                real.communicate()
                raise first
        finish(real, 'the replayer')
        # each run keeps its own copies, so that a concurrent rebuild cannot change them under it
        bins = os.path.join(BUILD, 'bin.%d' % os.getpid())
        os.makedirs(bins, exist_ok=True)
        a = os.path.join(bins, 'harness_sym')
        b = os.path.join(bins, 'harness_real')
        shutil.copy2(os.path.join(BUILD, 't_sym', 'release', 'harness_sym'), a)
        shutil.copy2(os.path.join(BUILD, 't_real', 'debug', 'harness_real'), b)
    return a, b, bins, time.time() - start


if __name__ == '__main__':
    try:
        a, b, bins, s = build()
        shutil.rmtree(bins)
        print('built in %.1f s' % s)
    except BuildError as e:
        print(e)
        sys.exit(2)

"""Builds the fact extractor and the dependency stand-ins, runs the extractor on
/repo's current source and returns the facts.  Everything is keyed by content
hash, so a second call on the same tree (or a check started right after another)
reuses the result, and any change of /repo/src gives fresh facts."""
import hashlib, json, os, subprocess, sys, fcntl, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
ENV = dict(os.environ)
ENV['PATH'] = '/root/.cargo/bin:' + ENV.get('PATH', '/usr/local/bin:/usr/bin:/bin')
ENV.setdefault('HOME', '/root')
ENV['CARGO_NET_OFFLINE'] = 'true'
for k in ('RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN', 'CARGO_BUILD_TARGET'):
    ENV.pop(k, None)


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=kw.pop('env', ENV), **kw)
    return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')


def file_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for root, ds, fs in os.walk(p):
                ds.sort()
                for f in sorted(fs):
                    q = os.path.join(root, f)
                    h.update(os.path.relpath(q, p).encode() + b'\0')
                    h.update(open(q, 'rb').read())
        else:
            h.update(open(p, 'rb').read())
        h.update(b'\1')
    return h.hexdigest()[:20]


def locked(name):
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, name + '.lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def sysroot():
    rc, o, e = run(['rustc', '+nightly', '--print', 'sysroot'])
    if rc:
        raise BuildError('nightly toolchain: ' + e)
    return o.strip()


def driver():
    src = os.path.join(VERIF, 'driver', 'driver.rs')
    out = os.path.join(CACHE, 'driver-' + file_hash(src))
    with locked('driver'):
        if not os.path.exists(out):
            rc, o, e = run(['rustc', '+nightly', '-O', '--cap-lints', 'allow', src, '-o', out + '.tmp'])
            if rc:
                raise BuildError('driver does not build:\n' + e[-4000:])
            os.rename(out + '.tmp', out)
    return out


def deps():
    """{crate: rlib path}, [dependency dirs]"""
    d = os.path.join(VERIF, 'stubs')
    key = file_hash(os.path.join(d, 'num'), os.path.join(d, 'rulinalg'), os.path.join(d, 'deps', 'Cargo.toml'))
    out = os.path.join(CACHE, 'deps-' + key)
    with locked('deps'):
        man = os.path.join(out, 'artifacts.json')
        if not os.path.exists(man):
            src = os.path.join(out, 'src')
            if os.path.isdir(src):
                shutil.rmtree(src)
            shutil.copytree(d, src)
            rc, o, e = run(['cargo', '+nightly', 'build', '--offline', '--message-format=json', '--target-dir', os.path.join(out, 'target')],
                           cwd=os.path.join(src, 'deps'))
            if rc:
                raise BuildError('dependency stand-ins do not build:\n' + e[-4000:])
            ext, dirs = {}, []
            for l in o.splitlines():
                if not l.startswith('{'):
                    continue
                j = json.loads(l)
                if j.get('reason') == 'compiler-artifact':
                    for f in j['filenames']:
                        if f.endswith('.rmeta'):
                            ext[j['target']['name']] = f
                            dirs.append(os.path.dirname(f))
            json.dump([ext, sorted(set(dirs))], open(man + '.tmp', 'w'))
            os.rename(man + '.tmp', man)
    return json.load(open(man))


def specs_path():
    """facts of the reference algorithms"""
    return facts_path(src=os.path.join(VERIF, 'specs'))


def facts_path(repo=None, src=None):
    repo = repo or REPO
    drv = driver()
    ext, dirs = deps()
    src = src or os.path.join(repo, 'src')
    key = hashlib.sha256((file_hash(src) + os.path.basename(drv) + str(ext.get('rulinalg')) + src).encode()).hexdigest()[:20]
    out = os.path.join(CACHE, 'facts-' + key + '.json')
    with locked('facts'):
        if not os.path.exists(out):
            sr = sysroot()
            env = dict(ENV)
            env['LD_LIBRARY_PATH'] = os.path.join(sr, 'lib')
            cmd = [drv, out + '.tmp', '--sysroot', sr, '--edition', '2015', '--crate-name', 'rusty_machine', '--crate-type', 'lib',
                   os.path.join(src, 'lib.rs'), '--cfg', 'feature="stats"', '--cfg', 'feature="datasets"', '--cap-lints', 'allow',
                   '-C', 'overflow-checks=off', '-C', 'debug-assertions=off', '-o', os.path.join(CACHE, 'unused.rlib')]
            for d in dirs:
                cmd += ['-L', 'dependency=' + d]
            for c in ('rand', 'num', 'rulinalg'):
                cmd += ['--extern', c + '=' + ext[c]]
            rc, o, e = run(cmd, env=env)
            if not os.path.exists(out + '.tmp'):
                raise BuildError('the extractor gave no facts for %s:\n%s' % (src, e[-6000:]))
            open(out + '.log', 'w').write(e)
            os.rename(out + '.tmp', out)
            # keep the cache small: only the twelve newest fact files stay
            fs = sorted((f for f in os.listdir(CACHE) if f.startswith('facts-') and f.endswith('.json')),
                        key=lambda f: os.path.getmtime(os.path.join(CACHE, f)))
            for f in fs[:-12]:
                for g in (f, f + '.log'):
                    try:
                        os.remove(os.path.join(CACHE, g))
                    except OSError:
                        pass
    return out


if __name__ == '__main__':
    print(facts_path(sys.argv[1] if len(sys.argv) > 1 else None))

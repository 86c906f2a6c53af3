"""Cargo decides by file times whether to compile again, and a shared target
folder can hold the build of another tree whose files are newer. This removes
cargo's records of the package when the sources differ from those of the last
build here, by content."""
import glob, hashlib, os, shutil


def digest(repo):
    h = hashlib.sha256()
    files = [os.path.join(repo, f) for f in ('Cargo.toml', 'Cargo.lock', 'build.rs')]
    for d, ds, fs in os.walk(os.path.join(repo, 'src')):
        ds.sort()
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()


def prepare(repo, target):
    stamp = os.path.join(target, 'papyri-source')
    now = digest(repo)
    try:
        same = open(stamp).read() == now
    except OSError:
        same = False
    if not same:
        for d in glob.glob(os.path.join(target, '*', '.fingerprint', 'papyri-lang-*')):
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(target, exist_ok=True)
        open(stamp, 'w').write(now)

import json, os, re, shutil, subprocess, sys, tempfile, time, signal
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'

def env(**kw):
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    e.pop('CARGO_TARGET_DIR', None)
    e.pop('RUSTFLAGS', None)
    e.update(kw)
    return e

def run(cmd, timeout, cwd=None, mem_gb=None, **kw):
    """Runs cmd; returns (rc, stdout, stderr, seconds); rc is None on timeout."""
    t = time.time()
    pre = None
    if mem_gb:
        import resource
        def pre():
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors='replace', start_new_session=True, preexec_fn=pre, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    if rc is None:
        out, err = p.communicate()
    return rc, out, err, time.time() - t

def scratch(prefix):
    return tempfile.mkdtemp(prefix='vp-%s-' % prefix, dir='/tmp')

def copy_repo(dst):
    for name in os.listdir(REPO):
        if name in ('target', '.git'):
            continue
        s = os.path.join(REPO, name)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(dst, name), ignore=shutil.ignore_patterns('target', '.git'))
        else:
            shutil.copy(s, dst)

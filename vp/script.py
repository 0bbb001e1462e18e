"""Running the command-line scripts of /repo/scripts within this process"""
import io, os, sys, runpy, subprocess, types
from vp import core

SCRIPTS = os.path.join(os.path.dirname(core.REPO_LIB), 'scripts')


class Exit(Exception):
    pass


def run(name, *args):
    """(exit status, what is written to standard output); an exception it lets escape is a violation"""
    raw = io.BytesIO()
    saved = (sys.argv, sys.stdout, sys.stderr, os.getcwd())
    sys.argv = [name] + [str(a) for a in args]
    out = io.TextIOWrapper(raw, encoding='utf-8', write_through=True)
    sys.stdout, sys.stderr = out, io.StringIO()
    code = 0

    def go():
        try:
            runpy.run_path(os.path.join(SCRIPTS, name), run_name='__main__')
        except SystemExit as e:
            return e.code or 0
        return 0
    go.__name__ = name
    try:
        code = core.call(go)
    finally:
        sys.argv, sys.stdout, sys.stderr = saved[:3]
        os.chdir(saved[3])
        try:
            out.detach()
        except ValueError:      # closed by the script: what it wrote is gone from raw
            pass
    return code, (raw.getvalue().decode('utf-8', 'replace') if not raw.closed else None)


def spawn(name, *args, timeout=300):
    """The same in a process of its own"""
    p = subprocess.run([sys.executable, os.path.join(SCRIPTS, name)] + [str(a) for a in args],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')

'''Running the scripts of the recipes in this process.'''
import contextlib, io, os, sys
import vlib

UTILS = os.path.join('recipes', 'aud', 'utils')


class Failed(Exception):
    'The script ended with an error status.'


def script(name, argv, stdin='', folder=UTILS):
    '''python <name>.py argv...  -> what it printed.'''
    path = os.path.join(vlib.REPO, folder, name + '.py')
    with open(path) as f:
        code = compile(f.read(), path, 'exec')
    old = sys.argv, sys.stdin
    out = io.StringIO()
    sys.argv, sys.stdin = [path] + [str(a) for a in argv], io.StringIO(stdin)
    sys.path.insert(0, os.path.dirname(path))
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            exec(code, {'__name__': '__main__', '__file__': path})
    except SystemExit as e:
        if e.code not in (None, 0):
            raise Failed('%s %s: exit status %r' % (name, argv, e.code))
    finally:
        sys.argv, sys.stdin = old
        sys.path.remove(os.path.dirname(path))
    return out.getvalue()

'''Runs `beer` commands of a recipe in forked processes (the imports are shared)
and interrupts them where a plan says so.

beerd.py SOCKET REPO     the server; the clients are the shims in the scratch bin folder
The plan is <run folder>/plan.json, a list of points
  {"cmd": "hmm accumulate", "nth": 3, "stage": "mid", "mode": "crash"}
  {"cmd": "mv", "dest": "1.mdl", "stage": "after", "mode": "crash"}
of which the first one met is taken: the command dies there (mode "fail"), or the
whole recipe does (mode "crash").'''
import array, builtins, io, json, os, runpy, shutil, signal, socket, struct, subprocess, sys

CLIENT = '''#!%(python)s -SEs
import array, json, os, socket, sys
name = os.path.basename(sys.argv[0])
s = socket.socket(socket.AF_UNIX)
s.connect(%(sock)r)
msg = json.dumps(dict(name=name, argv=sys.argv[1:], cwd=os.getcwd(), pgid=os.getpgid(0), run=os.environ.get('BEERD_RUN', ''))).encode()
s.sendmsg([msg], [(socket.SOL_SOCKET, socket.SCM_RIGHTS, array.array('i', [0, 1, 2]))])
out = s.recv(16)
if out == b'real':
    os.execv('/usr/bin/' + name, [name] + sys.argv[1:])
sys.exit(int(out) if out else 137)
'''

QSUB = '''#!/bin/bash
# an array job: every task in turn; waits for them with -sync y
sync=n; range=1-1; name=job; out=/dev/null
while [ "${1:0:1}" = "-" ]; do
  case $1 in
    -cwd|-V|-terse) shift;;
    -sync) sync=$2; shift 2;;
    -t) range=$2; shift 2;;
    -N) name=$2; shift 2;;
    -o) out=$2; shift 2;;
    *) shift 2;;
  esac
done
export SGE_O_WORKDIR=$(pwd) JOB_NAME=$name
tasks() {
  status=0
  for ((i=${range%%-*}; i<=${range##*-}; i++)); do
    SGE_TASK_ID=$i TASK_ID=$i bash "$@" > ${out//'$TASK_ID'/$i} 2>&1 < /dev/null || status=1
  done
  return $status
}
if [ "$sync" = y ]; then tasks "$@"; exit $?; fi
(sleep .5; tasks "$@") > /dev/null 2>&1 &
exit 0
'''


def install(folder, sock, more=()):
    os.makedirs(folder)
    for name in ('beer', 'cp', 'mv') + tuple(more):
        with open(os.path.join(folder, name), 'w') as f:
            f.write(CLIENT % dict(python=sys.executable, sock=sock))
    with open(os.path.join(folder, 'qsub'), 'w') as f:
        f.write(QSUB)
    with open(os.path.join(folder, 'activate'), 'w') as f:
        f.write('# nothing to activate\n')
    for name in os.listdir(folder):
        os.chmod(os.path.join(folder, name), 0o755)


class Task:
    def __init__(self, conn, msg):
        self.conn, self.msg = conn, msg
        self.name, self.argv, self.cwd = msg['name'], msg['argv'], msg['cwd']
        self.plan = []
        if msg['run']:
            with open(os.path.join(msg['run'], 'plan.json')) as f:
                self.plan = json.load(f)
            if os.path.exists(os.path.join(msg['run'], 'fired')):
                self.plan = []

    def match(self, cmd, nth=None, dest=None):
        for p in self.plan:
            if p['cmd'] == cmd and ('nth' not in p or p['nth'] == nth) and ('dest' not in p or (dest or '').startswith(p['dest'])):
                return p
        return None

    def reply(self, text):
        try:
            self.conn.sendall(text.encode())
        except OSError:
            pass

    def die(self, p):
        'The point of the plan is reached.'
        with open(os.path.join(self.msg['run'], 'fired'), 'w') as f:
            json.dump(p, f)
        if p['mode'] == 'crash':
            os.killpg(self.msg['pgid'], signal.SIGKILL)
        else:
            self.reply('1')
        os._exit(1)

    def counted(self, cmd):
        path = os.path.join(self.msg['run'], 'count_' + cmd.replace(' ', '_'))
        n = 1 + (int(open(path).read()) if os.path.exists(path) else 0)
        with open(path, 'w') as f:
            f.write(str(n))
        return n

    def copy(self):
        'cp, mv'
        files = [os.path.join(self.cwd, a) for a in self.argv if not a.startswith('-')]
        p = self.match(self.name, dest=os.path.basename(files[-1])) if files else None
        if p is None:
            return self.reply('real')
        if p['stage'] == 'before':
            self.die(p)
        if p['stage'] == 'mid' and self.name == 'cp' and os.path.isfile(files[0]):
            with open(files[0], 'rb') as f, open(files[-1], 'wb') as g:
                data = f.read()
                g.write(data[:len(data) // 2])
            self.die(p)
        subprocess.call(['/usr/bin/' + self.name] + self.argv, cwd=self.cwd)
        self.die(p)

    def filter(self):
        'A program which writes to its standard output or its own file.'
        p = self.match(self.name)
        if p is None:
            return self.reply('real')
        if p['stage'] == 'before':
            self.die(p)
        if p['stage'] == 'mid':
            if self.name == 'sort':
                data = subprocess.run(['/usr/bin/sort'] + self.argv, cwd=self.cwd, stdout=subprocess.PIPE).stdout
                os.write(1, data[:len(data) // 2])
            else:                                   # its temporary file stays behind
                out = [a for a in self.argv if not a.startswith('-')]
                with open(os.path.join(self.cwd, os.path.dirname(out[0]) if out else '', 'ziAbCdEf'), 'wb') as f:
                    f.write(b'PK\x03\x04')
            self.die(p)
        subprocess.call(['/usr/bin/' + self.name] + self.argv, cwd=self.cwd)
        self.die(p)

    def beer(self, repo):
        words = self.argv[:]
        while words and words[0].startswith('-'):
            words = words[2:] if words[0] in ('-s', '--seed') else words[1:]
        self.perform(' '.join(words[:2]), [os.path.join(repo, 'beer', 'cli', 'beer')] + self.argv)

    def python(self):
        'python utils/x.py ...'
        self.perform(os.path.basename(self.argv[0])[:-3], [os.path.join(self.cwd, self.argv[0])] + self.argv[1:])

    def perform(self, cmd, argv):
        import torch
        p = None
        if self.msg['run']:
            p = self.match(cmd, self.counted(cmd))
        stage = p['stage'] if p else None
        if stage == 'before':
            self.die(p)
        real_open, real_save = builtins.open, torch.save

        class Half:
            def __init__(self, f): self.f = f
            def __getattr__(self, k): return getattr(self.f, k)
            def __enter__(self): return self
            def __exit__(self, *a): self.f.close()
            def write(me, data):
                data = bytes(data) if not isinstance(data, str) else data
                me.f.write(data[:max(1, len(data) // 2)])
                me.f.flush()
                builtins.open = io.open = real_open
                self.die(p)

        def half_open(path, mode='r', *a, **k):
            f = real_open(path, mode, *a, **k)
            if 'w' in mode and stage == 'second' and not made:
                made.append(path)
                return f
            return Half(f) if 'w' in mode else f

        def half_save(obj, f, *a, **k):
            if not isinstance(f, (str, os.PathLike)):
                return real_save(obj, f, *a, **k)   # tensors within a pickled model
            with real_open(f, 'wb') as g:
                g.write(b'PK\x03\x04')
            self.die(p)
        screen, made = None, []
        if stage in ('mid', 'second'):
            builtins.open = io.open = half_open
            screen, sys.stdout = sys.stdout, io.StringIO()
        elif stage == 'state':
            torch.save = half_save
        os.chdir(self.cwd)
        sys.argv = argv
        if argv[0].endswith('.py'):
            sys.path.insert(0, os.path.dirname(argv[0]))
        rc = 0
        try:
            runpy.run_path(sys.argv[0], run_name='__main__')
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException:
            import traceback
            traceback.print_exc()
            rc = 1
        builtins.open, io.open, torch.save = real_open, real_open, real_save
        if screen is not None:                      # what it printed is cut short
            text, sys.stdout = sys.stdout.getvalue(), screen
            sys.stdout.write(text[:len(text) // 2])
        try:
            sys.stdout.flush(); sys.stderr.flush()
        except OSError:
            pass
        if p is not None:
            self.die(p)
        self.reply(str(rc))


def serve(sock, repo):
    import warnings
    warnings.filterwarnings('ignore')
    sys.dont_write_bytecode = True
    sys.path.insert(0, repo)
    import torch
    torch.set_num_threads(1)
    import beer.cli.subcommands
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    s = socket.socket(socket.AF_UNIX)
    s.bind(sock)
    s.listen(64)
    parent = os.getppid()
    s.settimeout(5)
    while True:
        try:
            conn, _ = s.accept()
        except socket.timeout:
            if os.getppid() != parent:
                return
            continue
        if os.fork():
            conn.close()
            continue
        try:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            conn.settimeout(None)
            fds = array.array('i')
            data, anc, _, _ = conn.recvmsg(1 << 16, socket.CMSG_LEN(3 * fds.itemsize))
            for level, kind, d in anc:
                fds.frombytes(d[:len(d) - len(d) % fds.itemsize])
            for i, fd in enumerate(fds[:3]):
                os.dup2(fd, i)
            for fd in fds:
                os.close(fd)
            sys.stdin, sys.stdout, sys.stderr = os.fdopen(0, 'r', closefd=False), os.fdopen(1, 'w', closefd=False), os.fdopen(2, 'w', closefd=False)
            conn.setblocking(False)
            try:
                if not conn.recv(1, socket.MSG_PEEK):
                    os._exit(1)                   # the caller was killed meanwhile
            except BlockingIOError:
                pass
            conn.setblocking(True)
            t = Task(conn, json.loads(data))
            t.copy() if t.name in ('cp', 'mv') else t.beer(repo) if t.name == 'beer' else t.python() if t.name == 'python' else t.filter()
        finally:
            os._exit(0)


if __name__ == '__main__':
    serve(sys.argv[1], sys.argv[2])

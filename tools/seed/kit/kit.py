"""A program using Liso on a pseudo-terminal, and a small terminal emulator."""
import os, pty, sys, time, fcntl, termios, struct, select, subprocess, re, unicodedata, signal

def width(c):
    if unicodedata.combining(c) or c in '\u200b': return 0
    return 2 if unicodedata.east_asian_width(c) in 'WF' else 1

class Screen:
    def __init__(self, w, h):
        self.w, self.h = w, h
        self.rows = [[(' ', ())] * w for _ in range(h)]
        self.back = []
        self.x = self.y = 0
        self.wrap = self.visible = True
        self.attr = ()
        self.bells = 0
        self.buf = ''
    def lf(self):
        if self.y + 1 < self.h: self.y += 1
        else:
            self.back.append(self.rows.pop(0))
            self.rows.append([(' ', ())] * self.w)
    def put(self, c):
        n = width(c)
        if n == 0: return
        if self.x + n > self.w:
            if self.wrap:
                self.x = 0; self.lf()
            else: self.x = self.w - n
        self.rows[self.y][self.x] = (c, self.attr)
        if n == 2: self.rows[self.y][self.x + 1] = ('', self.attr)
        self.x += n
    def feed(self, text):
        self.buf += text
        while self.buf:
            c = self.buf[0]
            if c == '\x1b':
                m = re.match(r'\x1b\[([?0-9;]*)([A-Za-z])', self.buf)
                if not m:
                    if len(self.buf) > 40: self.buf = self.buf[1:]; continue
                    return
                self.buf = self.buf[m.end():]
                self.csi(m.group(1), m.group(2))
                continue
            self.buf = self.buf[1:]
            if c == '\r': self.x = 0
            elif c == '\n': self.lf()
            elif c == '\x07': self.bells += 1
            elif c >= ' ': self.put(c)
    def csi(self, p, f):
        n = int(p) if p.isdigit() and int(p) else 1
        sx = min(self.x, self.w - 1)
        if f in 'ABCDGHJK': self.x = sx
        if f == 'A': self.y = max(0, self.y - n)
        elif f == 'B': self.y = min(self.h - 1, self.y + n)
        elif f == 'C': self.x = min(self.w - 1, self.x + n)
        elif f == 'D': self.x = max(0, self.x - n)
        elif f == 'H': self.x = self.y = 0
        elif f == 'K': self.rows[self.y][self.x:] = [(' ', self.bg())] * (self.w - self.x)
        elif f == 'J':
            if p == '2': self.x0 = 0; self.rows = [[(' ', ())] * self.w for _ in range(self.h)]
            else:
                self.rows[self.y][self.x:] = [(' ', self.bg())] * (self.w - self.x)
                for i in range(self.y + 1, self.h): self.rows[i] = [(' ', ())] * self.w
        elif f == 'm':
            for k in (p or '0').split(';'):
                if k in ('0', ''): self.attr = ()
                else: self.attr = self.attr + (k,)
        elif p == '?25': self.visible = f == 'h'
        elif p == '?7': self.wrap = f == 'h'
    def bg(self): return ()
    def lines(self):
        return [''.join(c for c, _ in r).rstrip() for r in self.back + self.rows[:]]
    def text(self):
        l = self.lines()
        while l and not l[-1]: l.pop()
        return l

class App:
    def __init__(self, binary, w=40, h=24, term='xterm', stdin='tty', stdout='tty', stderr='tty', env={}, ctty=True):
        self.m, self.s = pty.openpty()
        fcntl.ioctl(self.m, termios.TIOCSWINSZ, struct.pack('HHHH', h, w, 0, 0))
        self.orig = termios.tcgetattr(self.s)
        self.screen = Screen(w, h)
        self.raw = b''
        self.out = b''
        cr, self.cw = os.pipe()
        self.lr, lw = os.pipe()
        self.inw = self.outr = None
        i = o = e = self.s
        if stdin == 'pipe': i, self.inw = os.pipe()
        if stdout == 'pipe': self.outr, o = os.pipe()
        if stderr == 'null': e = os.open('/dev/null', os.O_RDWR)
        envv = dict(os.environ, TERM=term, **env)
        def pre():
            os.setsid()
            if ctty: fcntl.ioctl(self.s, termios.TIOCSCTTY, 0)
            signal.signal(signal.SIGHUP, signal.SIG_IGN)
            a = fcntl.fcntl(cr, fcntl.F_DUPFD, 20); b = fcntl.fcntl(lw, fcntl.F_DUPFD, 20)
            os.dup2(a, 3); os.dup2(b, 4)
        self.p = subprocess.Popen([binary], stdin=i, stdout=o, stderr=e, preexec_fn=pre, pass_fds=(3, 4), env=envv, close_fds=True)
        os.close(cr); os.close(lw)
        if stdin == 'pipe': os.close(i)
        if stdout == 'pipe': os.close(o)
        self.log = ''
        self.n = 0
    def pump(self, t):
        fds = [self.m, self.lr] + ([self.outr] if self.outr is not None else [])
        r, _, _ = select.select(fds, [], [], t)
        for fd in r:
            try: d = os.read(fd, 65536)
            except OSError: d = b''
            if fd == self.m:
                self.raw += d
                self.screen.feed(d.decode('utf-8', 'replace'))
            elif fd == self.lr: self.log += d.decode('utf-8', 'replace')
            else: self.out += d
        return bool(r)
    def settle(self, t=0.25):
        end = time.time() + t
        while time.time() < end:
            if self.pump(0.05) and time.time() > end - t / 2: end = time.time() + t / 2
            if time.time() > end + 20: break
    def cmd(self, c, wait=True, t=0.25, limit=20):
        os.write(self.cw, c.encode() + b'\n')
        if wait:
            self.n += 1
            os.write(self.cw, b'ping %d\n' % self.n)
            end = time.time() + limit
            while 'pong %d\n' % self.n not in self.log:
                self.pump(0.1)
                if time.time() > end: fail('no answer to %r' % c)
                if self.p.poll() is not None: fail('the program ended during %r' % c)
            a, b = self.log.split('pong %d\n' % self.n, 1)
            self.log = b
            self.settle(t)
            return a.splitlines()
    def type(self, b, t=0.3):
        fd = self.inw if self.inw is not None else self.m
        os.write(fd, b if isinstance(b, bytes) else b.encode())
        self.settle(t)
    def close(self):
        self.p.kill(); self.p.wait()

def fail(why):
    print('FAIL:', why)
    sys.exit(1)
def check(ok, why):
    if not ok: fail(why)

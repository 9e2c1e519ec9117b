"""Small helpers for a demonstration: build the server of the current directory, start it, talk to it."""
import os, shutil, signal, socket, subprocess, sys, tempfile, time


class Err(str):
    pass


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
    if not shutil.which("go"):
        e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "")
    return e


class Server:
    def __init__(self, race=False, tags=""):
        self.dir = tempfile.mkdtemp(prefix="demo.")
        e = env()
        cmd = ["go", "build", "-o", self.dir + "/server", "-tags", tags]
        e["CGO_ENABLED"] = "1" if race else "0"
        if race:
            cmd.append("-race")
        r = subprocess.run(cmd + ["./cmd/server"], env=e)
        if r.returncode:
            shutil.rmtree(self.dir)
            sys.exit(3)
        self.start()

    def start(self):
        for _ in range(5):
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            self.port = s.getsockname()[1]
            s.close()
            self.log = open(self.dir + "/log", "wb")
            self.p = subprocess.Popen([self.dir + "/server", "-addr", "tcp://127.0.0.1:%d" % self.port],
                                      stdout=subprocess.DEVNULL, stderr=self.log)
            for _ in range(200):
                if self.p.poll() is not None:
                    break
                try:
                    c = Client(self.port, timeout=2)
                    if c.cmd("PING") == "PONG":
                        c.close()
                        return
                except OSError:
                    time.sleep(0.05)
            self.p.kill()
            self.p.wait()
        raise SystemExit("server does not start")

    def client(self, **kw):
        return Client(self.port, **kw)

    def alive(self):
        return self.p.poll() is None

    def logged(self):
        with open(self.dir + "/log", "rb") as f:
            return f.read().decode("utf-8", "replace")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def enc(*args):
    out = [b"*%d\r\n" % len(args)]
    for a in args:
        if isinstance(a, int):
            a = str(a)
        if isinstance(a, str):
            a = a.encode("utf-8")
        out.append(b"$%d\r\n%s\r\n" % (len(a), a))
    return b"".join(out)


class Client:
    def __init__(self, port, timeout=20):
        self.s = socket.create_connection(("127.0.0.1", port), timeout=timeout)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.f = self.s.makefile("rb")

    def send(self, *args):
        self.s.sendall(enc(*args))

    def line(self):
        l = self.f.readline()
        if not l.endswith(b"\r\n"):
            raise EOFError("connection ended: %r" % l)
        return l[:-2]

    def reply(self):
        l = self.line()
        t, rest = l[:1], l[1:]
        if t == b"+":
            return rest.decode("latin-1")
        if t == b"-":
            return Err(rest.decode("latin-1"))
        if t == b":":
            return int(rest)
        if t == b"$":
            n = int(rest)
            if n < 0:
                return None
            b = self.f.read(n + 2)
            if len(b) != n + 2 or b[n:] != b"\r\n":
                raise EOFError("bad bulk %r" % b[:50])
            b = b[:n]
            return b.decode("latin-1")
        if t == b"*":
            return [self.reply() for _ in range(int(rest))]
        raise ValueError("no reply: %r" % l)

    def cmd(self, *args):
        self.send(*args)
        return self.reply()

    def close(self):
        self.f.close()
        self.s.close()


def want(got, *oks):
    if got not in oks or any(isinstance(got, Err) != isinstance(o, Err) for o in oks if got == o):
        print("got %r, want %r" % (got, oks))
        raise SystemExit(1)


def want_err(got):
    if not isinstance(got, Err):
        print("got %r, want an error" % (got,))
        raise SystemExit(1)

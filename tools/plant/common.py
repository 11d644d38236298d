"""Builds the server from the tree in the current directory with its paths
inside a scratch directory, runs it there and talks to it over loopback."""
import concurrent.futures, os, re, shutil, signal, socket, struct, subprocess, sys, tempfile, time

REPO = os.getcwd()


def _sources(mk, var):
    text = open(mk, encoding="utf-8").read()
    m = re.search(r"^%s\s*=((?:.*\\\r?\n)*.*\n)" % re.escape(var), text, re.M)
    return [s for s in m.group(1).replace("\\", " ").split() if s.endswith(".c")]


class Box:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="demo.")
        self.procs = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for p in self.procs:
            if p.poll() is None:
                p.send_signal(signal.SIGCONT)
                p.kill()
                p.wait()
        shutil.rmtree(self.dir)

    def path(self, p):
        return os.path.join(self.dir, p)

    def file(self, p, data, mtime=None):
        p = self.path(p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        if mtime is not None:
            os.utime(p, (mtime, mtime))
        return p

    def build(self, flags=(), conf_extra=""):
        d = self.dir
        for s in ("cfg", "etc", "www", "modules", "obj", "run"):
            os.makedirs(self.path(s), exist_ok=True)
        conf = REPO + "/_build/src/config.h"
        with open(self.path("cfg/config.h"), "w") as f:
            f.write('#include "%s"\n' % conf)
            for n, v in (("WITH_CONFIG_ROOT", d + "/etc"), ("WITH_MODULE_ROOT", d + "/modules"), ("WITH_WWW_ROOT", d + "/www")):
                f.write('#undef %s\n#define %s "%s"\n' % (n, n, v))
            f.write(conf_extra)
        jobs = []
        for sub, var in (("viriatum", "viriatum_SOURCES"), ("viriatum_commons", "libviriatum_a_SOURCES")):
            base = "%s/src/%s" % (REPO, sub)
            for s in _sources(base + "/Makefile.am", var):
                o = self.path("obj/%s_%s.o" % (sub, s.replace("/", "_")))
                jobs.append((["gcc", "-g", "-O1", "-w", "-DHAVE_CONFIG_H", "-I" + self.path("cfg"), "-I" + base, "-c", base + "/" + s, "-o", o] + list(flags), o))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda j: subprocess.run(j[0], check=True), jobs))
        self.exe = self.path("viriatum")
        subprocess.run(["gcc", "-rdynamic", "-o", self.exe] + [j[1] for j in jobs] + list(flags) +
                       ["-lpcre", "-lssl", "-lcrypto", "-lpthread", "-ldl", "-lm"], check=True)
        for base, _, files in os.walk(REPO + "/src/viriatum/resources"):
            for f in files:
                if f.endswith(".tpl"):
                    os.makedirs(self.path("www/templates"), exist_ok=True)
                    shutil.copy(os.path.join(base, f), self.path("www/templates/" + f))
        return self

    def module(self, name, libs=()):
        "builds one of the loadable modules into the modules directory"
        base = "%s/modules/mod_%s/src/viriatum_mod_%s" % (REPO, name, name)
        srcs = [base + "/" + s for s in ("stdafx.c", "module/entry.c", "module/handler.c")]
        subprocess.run(["gcc", "-g", "-O1", "-w", "-shared", "-fPIC", "-DHAVE_CONFIG_H", "-I" + self.path("cfg"), "-I" + base,
                        "-o", self.path("modules/libviriatum_mod_%s.so" % name)] + srcs + list(libs), check=True)

    def serve(self, ini="", env=None, pre=None):
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        self.port = s.getsockname()[1]
        s.close()
        self.file("etc/viriatum.ini", "[general]\nport = %d\nhost = 127.0.0.1\n%s\n" % (self.port, ini))
        e = dict(os.environ)
        e.update(env or {})
        self.log = open(self.path("log"), "wb")
        self.proc = subprocess.Popen([self.exe], cwd=self.path("run"), stdin=subprocess.DEVNULL, stdout=self.log,
                                     stderr=subprocess.STDOUT, env=e, preexec_fn=pre)
        self.procs.append(self.proc)
        for i in range(200):
            try:
                socket.create_connection(("127.0.0.1", self.port), 1).close()
                time.sleep(0.1)
                return self
            except OSError:
                time.sleep(0.05)
        print(open(self.path("log"), "rb").read()[-2000:])
        raise SystemExit("the server does not start")

    def conn(self, timeout=10, rcvbuf=None):
        return Conn(self.port, timeout, rcvbuf)

    def alive(self):
        return self.proc.poll() is None

    def fds(self):
        return len(os.listdir("/proc/%d/fd" % self.proc.pid))


class Conn:
    def __init__(self, port, timeout, rcvbuf):
        self.s = socket.socket()
        if rcvbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.settimeout(timeout)
        self.s.connect(("127.0.0.1", port))
        self.b = b""

    def send(self, data):
        self.s.sendall(data if isinstance(data, bytes) else data.encode())

    def get(self, path, method="GET", headers=(), keep=True):
        h = "".join("%s: %s\r\n" % x for x in headers)
        self.send("%s %s HTTP/1.1\r\nHost: x\r\nConnection: %s\r\n%s\r\n" % (method, path, "keep-alive" if keep else "close", h))

    def more(self):
        d = self.s.recv(65536)
        if not d:
            return False
        self.b += d
        return True

    def response(self, head=False):
        """(status, headers, body), None when the connection ended first"""
        while b"\r\n\r\n" not in self.b:
            if not self.more():
                return None
        h, self.b = self.b.split(b"\r\n\r\n", 1)
        lines = h.decode("latin1").split("\r\n")
        headers = {k.strip().lower(): v.strip() for k, v in (l.split(":", 1) for l in lines[1:])}
        status = int(lines[0].split()[1])
        n = 0 if head or status == 304 else int(headers.get("content-length", 0))
        while len(self.b) < n:
            if not self.more():
                return None
        body, self.b = self.b[:n], self.b[n:]
        return status, headers, body

    def ended(self, wait=5):
        """whether the server closes the connection within the wait"""
        self.s.settimeout(wait)
        try:
            return self.s.recv(1) == b""
        except ConnectionError:
            return True
        except socket.timeout:
            return False

    def reset(self):
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.s.close()

    def close(self):
        self.s.close()


def check(ok, what):
    if not ok:
        print("FAIL: " + what)
        sys.exit(1)
    print("ok: " + what)

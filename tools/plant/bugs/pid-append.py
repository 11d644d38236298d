prop='H27'
needs='a pid file left behind by a crash of an earlier daemon'
breaks='the pid file names the dead process (or a stranger) instead of the daemon'
edits=[('src/viriatum/viriatum.c','FOPEN(&pid_file, VIRIATUM_PID_PATH, "wb");','FOPEN(&pid_file, VIRIATUM_PID_PATH, "ab");')]
demo=r'''
SHIM = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
/* moves the pid and log files of the daemon into the scratch directory */
static const char *in(const char *p, char *b) {
    if(strncmp(p, "/var/run/viriatum", 17) && strncmp(p, "/var/log/viriatum", 17)) return p;
    snprintf(b, 4096, "%s%s", getenv("DEMO_ROOT"), p);
    return b;
}
#define R(f) __typeof__(f) *r = (__typeof__(f) *) dlsym(RTLD_NEXT, #f); char b[4096], c[4096]; (void) c
FILE *fopen(const char *p, const char *m) { R(fopen); return r(in(p, b), m); }
FILE *fopen64(const char *p, const char *m) { R(fopen64); return r(in(p, b), m); }
#define MODE va_list a; int m; va_start(a, f); m = va_arg(a, int); va_end(a)
int open(const char *p, int f, ...) { R(open); MODE; return r(in(p, b), f, m); }
int open64(const char *p, int f, ...) { R(open64); MODE; return r(in(p, b), f, m); }
int openat(int d, const char *p, int f, ...) { R(openat); MODE; return r(d, in(p, b), f, m); }
int creat(const char *p, mode_t m) { R(creat); return r(in(p, b), m); }
int remove(const char *p) { R(remove); return r(in(p, b)); }
int unlink(const char *p) { R(unlink); return r(in(p, b)); }
int rename(const char *p, const char *q) { R(rename); return r(in(p, b), in(q, c)); }
"""

with Box() as b:
    b.build()
    b.file("www/f", b"hello")
    b.file("shim.c", SHIM)
    subprocess.run(["gcc", "-shared", "-fPIC", "-o", b.path("shim.so"), b.path("shim.c"), "-ldl"], check=True)
    for d in ("var/run", "var/log"):
        os.makedirs(b.path(d))
    env = dict(os.environ, LD_PRELOAD=b.path("shim.so"), DEMO_ROOT=b.dir)
    pidfile = b.path("var/run/viriatum.pid")

    def daemon(port):
        b.file("etc/viriatum.ini", "[general]\nport = %d\nhost = 127.0.0.1\n" % port)
        b.port = port
        out = open(b.path("out"), "wb")
        return subprocess.run([b.exe, "--daemon"], cwd=b.path("run"), stdin=subprocess.DEVNULL, stdout=out, stderr=out, env=env).returncode

    def mine():
        "the processes that run the program of this demonstration"
        found = []
        for p in os.listdir("/proc"):
            try:
                if p.isdigit() and os.readlink("/proc/%s/exe" % p) == b.exe:
                    found.append(int(p))
            except OSError:
                pass
        return found

    def wait(cond, secs=10):
        end = time.time() + secs
        while time.time() < end:
            if cond():
                return True
            time.sleep(0.05)
        return False

    def free():
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        port = s.getsockname()[1]
        s.close()
        return port

    def up():
        try:
            socket.create_connection(("127.0.0.1", b.port), 1).close()
            return True
        except OSError:
            return False

    try:
        check(daemon(free()) == 0, "the parent reports success")
        check(wait(up), "the daemon serves")
        c = b.conn(); c.get("/f")
        check(c.response()[2] == b"hello", "the daemon serves a file")
        check(open(pidfile).read() == "%d\n" % mine()[0], "the pid file names the daemon")
        os.kill(int(open(pidfile).read()), signal.SIGTERM)
        check(wait(lambda: not mine()), "the daemon ends")
        check(wait(lambda: not os.path.exists(pidfile), 3), "its pid file is gone")

        b.file("var/run/viriatum.pid", "4194303\n")
        check(daemon(free()) == 0, "the parent reports success")
        check(wait(up), "the daemon serves")
        check(open(pidfile).read() == "%d\n" % mine()[0], "the pid file names the daemon, not an earlier one that crashed (%r)" % open(pidfile).read())
    finally:
        for p in mine():
            os.kill(p, signal.SIGKILL)
        wait(lambda: not mine())
'''

prop='H15'
needs='a termination signal that arrives after the handlers are installed and before the service loop starts'
breaks='the signal is forgotten and the server keeps running'
edits=[('src/viriatum/system/service.c','''    /* sets the service status as open, this should mark the
    service loop as iterable (breaks on stop) */
    service->status = STATUS_OPEN;

''',''),('src/viriatum/system/service.c','''    /* iterates continuously, while the service is open (this
    is the main loop triggering all the actions) */
    while(service->status == STATUS_OPEN) {
''','''    /* sets the service status as open, so that the service loop
    is iterable (breaks on stop) */
    service->status = STATUS_OPEN;

    /* iterates continuously, while the service is open (this
    is the main loop triggering all the actions) */
    while(service->status == STATUS_OPEN) {
''')]
demo='''
SHIM = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/epoll.h>
static void now(const char *n) { const char *w = getenv("STOP_AT"); if(w && !strcmp(w, n)) raise(SIGTERM); }
int listen(int s, int b) { int r = ((int (*)(int, int)) dlsym(RTLD_NEXT, "listen"))(s, b); now("listen"); return r; }
int epoll_create(int n) { int r = ((int (*)(int)) dlsym(RTLD_NEXT, "epoll_create"))(n); now("epoll"); return r; }
int bind(int s, const struct sockaddr *a, socklen_t l) { int r = ((int (*)(int, const struct sockaddr *, socklen_t)) dlsym(RTLD_NEXT, "bind"))(s, a, l); now("bind"); return r; }
"""
with Box() as b:
    b.build()
    b.file("shim.c", SHIM)
    subprocess.run(["gcc", "-shared", "-fPIC", "-o", b.path("shim.so"), b.path("shim.c"), "-ldl"], check=True)
    b.serve()
    b.proc.terminate()
    check(b.proc.wait(20) == 0, "a running server stops")
    for at in ("bind", "listen", "epoll"):
        e = dict(os.environ, LD_PRELOAD=b.path("shim.so"), STOP_AT=at)
        p = subprocess.Popen([b.exe], cwd=b.path("run"), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=e)
        b.procs.append(p)
        try: rc = p.wait(10)
        except subprocess.TimeoutExpired: rc = None
        check(rc == 0, "a signal at %s ends the server (%r)" % (at, rc))
'''

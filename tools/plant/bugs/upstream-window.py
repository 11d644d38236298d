prop='H13'
needs='a large response relayed to a client that reads slowly, so that the writes to it are partial'
breaks='the amount of data waiting for the client is never brought back to zero and the relay stops for ever'
edits=[('src/viriatum/handlers/handler_proxy.c','''    handler_proxy_context->pending_write -= data->size_base;
''','''    handler_proxy_context->pending_write -= data->size;
''')]
demo='''
import threading
SHIM = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/socket.h>
int accept(int s, struct sockaddr *a, socklen_t *l) {
    int (*real)(int, struct sockaddr *, socklen_t *) = dlsym(RTLD_NEXT, "accept");
    int r = real(s, a, l), size = 20000;
    if(r >= 0) setsockopt(r, SOL_SOCKET, SO_SNDBUF, &size, sizeof(size));
    return r;
}
"""
BODY = os.urandom(1 << 16) * 256
def upstream(s):
    while True:
        c, _ = s.accept()
        def serve(c):
            b = b""
            while b"\\r\\n\\r\\n" not in b:
                d = c.recv(4096)
                if not d: return
                b += d
            c.sendall(b"HTTP/1.1 200 OK\\r\\nContent-Length: %d\\r\\n\\r\\n" % len(BODY))
            try: c.sendall(BODY)
            except OSError: pass
        threading.Thread(target=serve, args=(c,), daemon=True).start()
with Box() as b:
    b.build()
    b.file("shim.c", SHIM)
    subprocess.run(["gcc", "-shared", "-fPIC", "-o", b.path("shim.so"), b.path("shim.c"), "-ldl"], check=True)
    s = socket.socket(); s.bind(("127.0.0.1", 0)); s.listen(10)
    threading.Thread(target=upstream, args=(s,), daemon=True).start()
    b.serve("[location:p]\\npath = ^/p/\\nhandler = proxy\\nproxy_pass = http://127.0.0.1:%d/" % s.getsockname()[1],
            env={"LD_PRELOAD": b.path("shim.so")})
    for i in range(2):
        c = b.conn(rcvbuf=4096, timeout=15)
        c.get("/p/x", keep=False)
        time.sleep(0.5)
        got = 0
        try:
            while True:
                d = c.s.recv(4096)
                if not d: break
                got += len(d)
        except socket.timeout: pass
        check(got > len(BODY), "a slow reader gets the whole response")
'''

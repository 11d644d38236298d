prop='H05'
needs='reads that return less than was asked for while more input follows, until the reading buffer is filled to a size that is no multiple of one read'
breaks='the last read of a round is put behind the end of the buffer on the stack: the bytes of a client overwrite memory of the server'
edits=[('src/viriatum/stream/stream_io.c','if(buffer_size + VIRIATUM_READ_SIZE > VIRIATUM_READB_SIZE) {','if(buffer_size >= VIRIATUM_READB_SIZE) {')]
demo=r'''
SHIM = "".join((
    "#define _GNU_SOURCE\n#include <dlfcn.h>\n#include <sys/socket.h>\n",
    "/* a kernel that hands out odd pieces of what has arrived */\n",
    "ssize_t recv(int s, void *p, size_t n, int f) {\n",
    "    static unsigned k;\n",
    "    ssize_t (*r)(int, void *, size_t, int) = (ssize_t (*)(int, void *, size_t, int)) dlsym(RTLD_NEXT, \"recv\");\n",
    "    return r(s, p, n > 3000 ? 3000 + k++ % 7 : n, f);\n}\n"))

with Box() as b:
    # the reading buffer is watched by the sanitizer, its interceptors are not needed for that
    b.build(["-fsanitize=address", "-static-libasan"])
    b.file("www/f", b"hello")
    b.file("shim.c", SHIM)
    subprocess.run(["gcc", "-shared", "-fPIC", "-o", b.path("shim.so"), b.path("shim.c"), "-ldl"], check=True)
    b.serve(env={"LD_PRELOAD": b.path("shim.so"), "ASAN_OPTIONS": "detect_leaks=0:verify_asan_link_order=0"})
    c = b.conn(20)
    c.get("/f")
    check(c.response()[2] == b"hello", "a file")
    body = b"x" * 600000
    os.kill(b.proc.pid, signal.SIGSTOP)
    c.s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 20)
    c.s.setblocking(False)
    data = b"POST /f HTTP/1.1\r\nHost: x\r\nConnection: keep-alive\r\nContent-Length: 600000\r\n\r\n" + body
    n = 0
    try:
        while n < len(data):
            n += c.s.send(data[n:])
    except BlockingIOError:
        pass
    os.kill(b.proc.pid, signal.SIGCONT)
    c.s.settimeout(20)
    try:
        c.send(data[n:])
        r = c.response()
    except ConnectionError:
        r = None
    check(r and r[0] == 200 and r[2] == b"hello", "a request with a long body is answered (%r)" % (r,))
    c.get("/f")
    check(c.response()[2] == b"hello", "and the next one")
    check(b.alive(), "the server runs")
'''

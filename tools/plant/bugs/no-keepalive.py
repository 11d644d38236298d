prop='H06'
needs='a peer that vanishes without closing its connection (power loss, cable, address change)'
breaks='the descriptors and the memory of such connections are kept for ever'
edits=[('src/viriatum/global/definitions.h','''#define VIRIATUM_KEEPALIVE 1
#define VIRIATUM_NO_WAIT 1
#define VIRIATUM_NO_PUSH 1
#define VIRIATUM_SOCKET_ERROR 0
#define VIRIATUM_SELECT_TIMEOUT 1
''','''#define VIRIATUM_KEEPALIVE 0
#define VIRIATUM_NO_WAIT 1
#define VIRIATUM_NO_PUSH 1
#define VIRIATUM_SOCKET_ERROR 0
#define VIRIATUM_SELECT_TIMEOUT 1
''')]
demo='''

def timers(port):
    "the timers the kernel runs for the connections of the server"
    out = []
    for l in open("/proc/net/tcp").read().split("\\n")[1:]:
        f = l.split()
        if len(f) > 9 and f[1] == "0100007F:%04X" % port and f[3] == "01":
            out.append(f[5])
    return out

with Box() as b:
    b.build()
    b.file("www/f", b"hello")
    b.serve()
    c = b.conn()
    for i in range(2):
        c.get("/f")
        check(c.response()[2] == b"hello", "the server serves")
    d = b.conn()
    time.sleep(1)
    t = timers(b.port)
    check(len(t) == 2, "two connections are open (%r)" % t)
    check(all(x.startswith("02:") for x in t), "the kernel watches over idle connections, so that the ones of vanished peers end (%r)" % t)
'''

prop='H18'
needs='a client that sends its first request together with the last message of the handshake'
breaks='the request that comes with the end of the handshake is not read until more data arrives'
edits=[('src/viriatum/polling/polling_epoll.c','''            V_DEBUG("Finished calling on handshake handler\\n");
        }

        /* in case the current connection is open and the read
        handler is correclty set (must call it) */
        if(current_connection->status == STATUS_OPEN &&\\
            current_connection->on_read != NULL) {
            /* prints a series''','''            V_DEBUG("Finished calling on handshake handler\\n");
        }

        /* otherwise in case the current connection is open and the
        read handler is correclty set (must call it) */
        else if(current_connection->status == STATUS_OPEN &&\\
            current_connection->on_read != NULL) {
            /* prints a series''')]
demo='''

import ssl
def certificate(b):
    subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-days", "3650", "-subj", "/CN=x",
                    "-keyout", b.path("k.pem"), "-out", b.path("c.pem")], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return "ssl = 1\\nssl_csr = %s\\nssl_key = %s" % (b.path("c.pem"), b.path("k.pem"))
class Tls:
    def __init__(self, b, version):
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        ctx.check_hostname = False
        ctx.verify_mode = ssl.CERT_NONE
        ctx.minimum_version = ctx.maximum_version = version
        self.rx, self.tx = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.o = ctx.wrap_bio(self.rx, self.tx)
        self.s = socket.create_connection(("127.0.0.1", b.port), 10)
    def flush(self):
        d = self.tx.read()
        if d: self.s.sendall(d)
    def step(self):
        """one step of the handshake, true when it is over (nothing is sent then)"""
        try:
            self.o.do_handshake()
            return True
        except ssl.SSLWantReadError:
            self.flush()
            d = self.s.recv(65536)
            if not d: raise ConnectionError()
            self.rx.write(d)
    def read(self):
        while True:
            try: return self.o.read(65536)
            except ssl.SSLWantReadError:
                d = self.s.recv(65536)
                if not d: return b""
                self.rx.write(d)

with Box() as b:
    b.build()
    b.file("www/f", b"hello")
    b.serve(certificate(b))
    for version in (ssl.TLSVersion.TLSv1_2, ssl.TLSVersion.TLSv1_3):
        for early in (False, True):
            t = Tls(b, version)
            while not t.step(): pass
            if not early: t.flush(); time.sleep(0.3)
            t.o.write(b"GET /f HTTP/1.1\\r\\nHost: x\\r\\nConnection: keep-alive\\r\\n\\r\\n")
            t.flush()
            got = b""
            try:
                while b"hello" not in got:
                    d = t.read()
                    if not d: break
                    got += d
            except socket.timeout: pass
            check(got.startswith(b"HTTP/1.1 200") and got.endswith(b"hello"), "the request is answered (%s, with the handshake: %s)" % (version, early))
'''

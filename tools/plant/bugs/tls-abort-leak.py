prop='H19'
needs='TLS peers that abort their connection'
breaks='the TLS state of a connection whose shutdown fails is never released'
edits=[('src/viriatum/system/service.c','''        SSL_shutdown(connection->ssl_handle);
        SSL_free(connection->ssl_handle);
''','''        if(SSL_shutdown(connection->ssl_handle) >= 0) { SSL_free(connection->ssl_handle); }
''')]
demo='''

import ssl
def certificate(b):
    subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-days", "3650", "-subj", "/CN=x",
                    "-keyout", b.path("k.pem"), "-out", b.path("c.pem")], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return "ssl = 1\\nssl_csr = %s\\nssl_key = %s" % (b.path("c.pem"), b.path("k.pem"))
class Tls:
    def __init__(self, b, version):
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        ctx.check_hostname = False
        ctx.verify_mode = ssl.CERT_NONE
        ctx.minimum_version = ctx.maximum_version = version
        self.rx, self.tx = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.o = ctx.wrap_bio(self.rx, self.tx)
        self.s = socket.create_connection(("127.0.0.1", b.port), 10)
    def flush(self):
        d = self.tx.read()
        if d: self.s.sendall(d)
    def step(self):
        """one step of the handshake, true when it is over (nothing is sent then)"""
        try:
            self.o.do_handshake()
            return True
        except ssl.SSLWantReadError:
            self.flush()
            d = self.s.recv(65536)
            if not d: raise ConnectionError()
            self.rx.write(d)
    def read(self):
        while True:
            try: return self.o.read(65536)
            except ssl.SSLWantReadError:
                d = self.s.recv(65536)
                if not d: return b""
                self.rx.write(d)

def rss(b):
    return int(re.search(r"VmRSS:\\s+(\\d+)", open("/proc/%d/status" % b.proc.pid).read()).group(1))
with Box() as b:
    b.build()
    b.file("www/f", b"hello")
    b.serve(certificate(b))
    def round(n):
        for i in range(n):
            t = Tls(b, ssl.TLSVersion.TLSv1_3)
            try: t.o.do_handshake()
            except ssl.SSLWantReadError: pass
            d = t.tx.read()
            t.s.sendall(d[:len(d) // 2 + i % 50])
            t.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            t.s.close()
    round(200)
    time.sleep(1)
    base = rss(b)
    round(1500)
    time.sleep(1)
    more = rss(b) - base
    check(more < 3000, "memory does not grow with aborted connections (%d kB)" % more)
    t = Tls(b, ssl.TLSVersion.TLSv1_3)
    while not t.step(): pass
    t.o.write(b"GET /f HTTP/1.1\\r\\nHost: x\\r\\nConnection: close\\r\\n\\r\\n")
    t.flush()
    got = b""
    while b"hello" not in got:
        d = t.read()
        if not d: break
        got += d
    check(got.startswith(b"HTTP/1.1 200"), "the server still answers")
'''

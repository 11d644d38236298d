prop='H14'
needs='an upstream that closes its idle connection between two requests of the same client'
breaks='the closed upstream connection stays associated with the client and its next request uses it after it was freed'
edits=[('src/viriatum/handlers/handler_proxy.c','''    set_value_hash_map(proxy_handler->connections_map, (size_t) connection_s, NULL, NULL);
    set_value_hash_map(proxy_handler->reverse_map, (size_t) connection, NULL, NULL);
''','''    set_value_hash_map(proxy_handler->reverse_map, (size_t) connection, NULL, NULL);
''')]
demo='''
import threading
def upstream(s):
    while True:
        c, _ = s.accept()
        b = b""
        while b"\\r\\n\\r\\n" not in b:
            d = c.recv(4096)
            if not d: break
            b += d
        c.sendall(b"HTTP/1.1 200 OK\\r\\nContent-Length: 5\\r\\n\\r\\nhello")
        time.sleep(0.2)
        c.close()
with Box() as b:
    b.build(["-fsanitize=address"])
    s = socket.socket(); s.bind(("127.0.0.1", 0)); s.listen(10)
    threading.Thread(target=upstream, args=(s,), daemon=True).start()
    b.serve("[location:p]\\npath = ^/p/\\nhandler = proxy\\nproxy_pass = http://127.0.0.1:%d/" % s.getsockname()[1],
            env={"ASAN_OPTIONS": "detect_leaks=0"})
    c = b.conn()
    for i in range(4):
        try:
            c.get("/p/x")
            r = c.response()
        except OSError: r = None
        check(r is not None and r[0] == 200 and r[2] == b"hello", "request %d is answered" % i)
        time.sleep(1)
    check(b.alive(), "the server lives")
'''

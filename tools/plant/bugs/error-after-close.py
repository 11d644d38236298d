prop='H04'
needs='a client that resets its connection so that the read and the error are reported together'
breaks='the connection is closed twice: the server crashes'
edits=[('src/viriatum/polling/polling_epoll.c','''        if(current_connection->status == STATUS_OPEN &&\\
            current_connection->on_error != NULL) {
''','''        if(current_connection->on_error != NULL) {
''')]
demo='''
with Box() as b:
    b.build()
    b.file("www/f", b"hello")
    b.serve()
    for i in range(10):
        c = b.conn()
        c.send("GET /f HTTP/1.1\\r\\nHost:")
        time.sleep(0.02)
        c.reset()
        time.sleep(0.05)
        check(b.alive(), "the server runs on") if not b.alive() else None
    c = b.conn()
    c.get("/f")
    check(c.response()[2] == b"hello", "the other connections are served")
'''

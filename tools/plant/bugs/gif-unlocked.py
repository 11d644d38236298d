prop='H28'
needs='requests for other handlers pipelined behind one for the gif module in the same segment'
breaks='the connection is not held while the image is on its way: the end of its response unsets the handler of the next request, which is never answered or answered in pieces'
edits=[('modules/mod_gif/src/viriatum_mod_gif/module/handler.c','    http_connection->acquire(http_connection);\n','')]
demo=r"""
with Box() as b:
    b.build()
    b.module("gif")
    b.file("www/f", b"hello world")
    b.serve("[location:gif]\npath = ^/gif\nhandler = gif\n")
    c = b.conn()
    c.get("/gif")
    check(c.response()[2][:6] == b"GIF89a", "the image")
    c.get("/f")
    check(c.response()[2] == b"hello world", "the file")
    c.close()
    for n in range(20):
        c = b.conn()
        c.s.settimeout(5)
        c.send(b"GET /gif HTTP/1.1\r\nHost: x\r\nConnection: keep-alive\r\n\r\nGET /f HTTP/1.1\r\nHost: x\r\nConnection: keep-alive\r\n\r\nGET /gif HTTP/1.1\r\nHost: x\r\nConnection: keep-alive\r\n\r\nGET /f HTTP/1.1\r\nHost: x\r\nConnection: keep-alive\r\n\r\n")
        for want in (b"GIF89a", b"hello ", b"GIF89a", b"hello "):
            r = c.response()
            check(r and r[0] == 200 and r[2][:6] == want, "pipelined requests are answered in turn (%r)" % (r,))
        c.close()
    check(b.proc.poll() is None, "the server runs")
"""

prop='H08'
needs='a request for a directory without the final slash that asks for the connection to be closed'
breaks='the redirect announces keep-alive but the connection is closed'
edits=[('src/viriatum/handlers/handler_file.c','''            307,
            "Temporary Redirect",
            keep_alive ? KEEP_ALIVE : KEEP_CLOSE,
''','''            307,
            "Temporary Redirect",
            KEEP_ALIVE,
''')]
demo='''
with Box() as b:
    b.build()
    b.file("www/d/f", b"hello")
    b.serve()
    for path, status in (("/d/f", 200), ("/none", 404), ("/d", 307)):
        for keep in (True, False):
            c = b.conn()
            c.get(path, keep=keep)
            r = c.response()
            check(r[0] == status, "%s gives %d" % (path, status))
            says = r[1]["connection"].lower()
            check((says == "close") == (not keep), "the announcement follows the request (%s)" % says)
            if not keep:
                check(c.ended(), "the connection is closed")
            else:
                c.get("/d/f")
                check(c.response()[2] == b"hello", "the connection goes on")
'''

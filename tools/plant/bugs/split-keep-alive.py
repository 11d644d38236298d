prop='H08'
needs='a request cut inside of the value of its connection header'
breaks='the value is not recognised when it arrives in two parts'
edits=[('src/viriatum/http/http_parser.c','''    http_parser->index = (unsigned char) index;
''','''    http_parser->index = state == STATE_HEADER_VALUE ? 0 : (unsigned char) index;
''')]
demo='''
with Box() as b:
    b.build()
    b.file("www/f", b"hello")
    b.serve()
    raw = b"GET /f HTTP/1.1\\r\\nHost: x\\r\\nConnection: keep-alive\\r\\n\\r\\n"
    for cut in range(1, len(raw)):
        c = b.conn()
        c.send(raw[:cut])
        time.sleep(0.02)
        c.send(raw[cut:])
        r = c.response()
        check(r[0] == 200 and r[2] == b"hello", "the request is answered")
        check(r[1]["connection"].lower() == "keep-alive", "keep alive is announced (cut at %d)" % cut)
        c.send(raw)
        r = c.response()
        check(r is not None and r[2] == b"hello", "the connection goes on")
'''

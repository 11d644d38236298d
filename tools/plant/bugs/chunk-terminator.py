prop='H22'
needs='a chunk whose data is not followed by the end of its line'
breaks='a body whose chunks are longer than they announce is accepted, without the bytes that are too many'
edits=[('src/viriatum/http/http_parser.c','''                assert(http_parser->flags & FLAG_CHUNKED);
                STRICT_CHECK(byte != CR);
                state = STATE_CHUNK_DATA_DONE;
''','''                assert(http_parser->flags & FLAG_CHUNKED);
                state = STATE_CHUNK_DATA_DONE;
''')]
demo='''

with Box() as b:
    b.build()
    b.file("www/f", b"hello")
    b.serve()
    H = b"POST /f HTTP/1.1\\r\\nHost: x\\r\\nTransfer-Encoding: chunked\\r\\n\\r\\n"
    c = b.conn()
    c.send(H + b"5\\r\\nhello\\r\\n0\\r\\n\\r\\n")
    check(c.response()[0] == 200, "a chunked body is accepted")
    for bad in (b"5\\r\\nhelloX\\n0\\r\\n\\r\\n", b"4\\r\\nhello\\r\\n0\\r\\n\\r\\n", b"5\\r\\nhello0\\n0\\r\\n\\r\\n"):
        c = b.conn(timeout=4)
        c.send(H + bad)
        try:
            d = c.s.recv(65536)
        except ConnectionError:
            d = b""
        except socket.timeout:
            d = b""
        check(not d.startswith(b"HTTP/1.1 200"), "a chunk longer than announced is refused (%r)" % d[:40])
    c = b.conn(); c.get("/f")
    check(c.response()[2] == b"hello", "the server goes on")
'''

prop='H11'
needs='a file that becomes shorter while it is being sent'
breaks='what is missing of a file is replaced by whatever the buffer holds instead of ending the connection'
edits=[('src/viriatum/handlers/handler_file.c','''            file_buffer,
            (unsigned int) number_bytes,
            _send_chunk_handler_file,
''','''            file_buffer,
            (unsigned int) buffer_size,
            _send_chunk_handler_file,
''')]
demo='''
with Box() as b:
    b.build()
    b.file("www/small", b"s" * 100)
    b.serve()
    c = b.conn()
    c.get("/small")
    check(c.response()[2] == b"s" * 100, "a file arrives")
    data = bytes(range(1, 251)) * 40000
    p = b.file("www/big", data)
    bad = False
    for cut in (5000001, 6000001, 7000001, 8000001):
        b.file("www/big", data)
        c = b.conn(rcvbuf=4096)
        c.get("/big", keep=False)
        c.s.recv(10)
        time.sleep(0.3)
        os.truncate(p, cut)
        got = b""
        try:
            while c.more(): pass
        except OSError: pass
        body = c.b.split(b"\\r\\n\\r\\n", 1)[-1]
        tail = body[-2000000:]
        off = len(body) - len(tail)
        # only bytes of the file, at their positions, are ever delivered
        start = data.find(tail[:300]) if tail else 0
        bad |= bool(tail) and tail not in data
    check(not bad, "nothing but the content of the file is delivered")
'''

prop='H03'
needs='a file that changes twice within one minute and a client with the validator of the first version'
breaks='the old validator is answered 304 although the file has changed'
edits=[('src/viriatum/handlers/handler_file.c','''            crc32_value = crc_32((unsigned char *) time_string, 19);
''','''            crc32_value = crc_32((unsigned char *) time_string, sizeof("0000-00-00 00:00") - 1);
''')]
demo='''
with Box() as b:
    b.build()
    t = 1500000000
    b.file("www/f", b"first", t)
    b.serve()
    c = b.conn()
    c.get("/f")
    r = c.response()
    tag = r[1]["etag"]
    c.get("/f", headers=[("If-None-Match", tag)])
    check(c.response()[0] == 304, "current validator gives 304")
    for dt in (7, 13, 60, 3600, 86400):
        b.file("www/f", b"second version", t + dt)
        c.get("/f", headers=[("If-None-Match", tag)])
        r = c.response()
        check(r[0] == 200 and r[2] == b"second version", "old validator gives the new content (%d seconds later)" % dt)
'''

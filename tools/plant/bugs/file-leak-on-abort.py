prop='H06'
needs='a client that asked for the connection to be closed and aborts in the middle of a large download'
breaks='the file of an aborted transfer stays open: descriptors leak until none is left'
edits=[('src/viriatum/handlers/handler_file.c','''    if(handler_file_context->file != NULL) {
        fclose(handler_file_context->file);
    }
''','''    if(handler_file_context->file != NULL && handler_file_context->flags & FLAG_KEEP_ALIVE) {
        fclose(handler_file_context->file);
    }
''')]
demo='''
with Box() as b:
    b.build()
    b.file("www/big", os.urandom(1 << 16) * 128)
    b.serve()
    base = b.fds()
    for i in range(40):
        c = b.conn(rcvbuf=4096)
        c.get("/big", keep=i % 2 == 0)
        c.s.recv(1000)
        c.reset()
    c = b.conn()
    c.get("/big", "HEAD", keep=False)
    check(c.response(True)[0] == 200, "the server still answers")
    time.sleep(0.5)
    check(b.fds() <= base + 2, "descriptors are back to idle (%d, %d)" % (base, b.fds()))
'''

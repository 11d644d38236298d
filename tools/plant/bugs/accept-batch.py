prop='H07'
needs='more than 16 connections that arrive while the server is busy (one edge for all of them)'
breaks='the connections over the batch stay in the accept queue until another connection arrives'
edits=[('src/viriatum/stream/stream_io.c','''        if(!VIRIATUM_NON_BLOCKING) { break; }
    }

    /* raise no error */
    RAISE_NO_ERROR;
}

ERROR_CODE read_handler_stream_io''','''        /* limits the number of connections accepted at once so that
        the ones that are already open are not delayed */
        if(!VIRIATUM_NON_BLOCKING || ++count == 16) { break; }
    }

    /* raise no error */
    RAISE_NO_ERROR;
}

ERROR_CODE read_handler_stream_io'''),('src/viriatum/stream/stream_io.c','''    SOCKET_ADDRESS_SIZE client_socket_address_size = sizeof(SOCKET_ADDRESS);
''','''    SOCKET_ADDRESS_SIZE client_socket_address_size = sizeof(SOCKET_ADDRESS);
    size_t count = 0;
''')]
demo='''
with Box() as b:
    b.build()
    b.file("www/f", b"hello")
    b.serve()
    b.proc.send_signal(signal.SIGSTOP)
    cs = [b.conn() for i in range(60)]
    for c in cs:
        c.get("/f")
    time.sleep(0.3)
    b.proc.send_signal(signal.SIGCONT)
    for i, c in enumerate(cs):
        try:
            r = c.response()
        except socket.timeout:
            r = None
        check(r and r[2] == b"hello", "connection %d of a burst is answered" % i) if i % 10 == 9 or not r else None
'''

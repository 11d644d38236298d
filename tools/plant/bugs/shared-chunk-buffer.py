prop='H02'
needs='two concurrent transfers of large files, one of them with a write that was only partially accepted'
breaks='a slow client receives a part of the file of another client'
edits=[('src/viriatum/handlers/handler_file.c','''    file_buffer = MALLOC(buffer_size);
''','''    file_buffer = chunk_buffer;
'''),('src/viriatum/handlers/handler_file.c','''        write_connection(
            connection,
            file_buffer,
            (unsigned int) number_bytes,
            _send_chunk_handler_file,
            handler_file_context
        );''','''        write_connection_c(
            connection,
            file_buffer,
            (unsigned int) number_bytes,
            _send_chunk_handler_file,
            handler_file_context,
            FALSE
        );'''),('src/viriatum/handlers/handler_file.c','''        fclose(file);
        FREE(file_buffer);
''','''        fclose(file);
'''),('src/viriatum/handlers/handler_file.c','''    unsigned char *file_buffer;

    /* casts''','''    unsigned char *file_buffer;

    /* the buffer for the chunks, is the same for every transfer as
    there is only one thread reading files */
    static unsigned char chunk_buffer[FILE_BUFFER_SIZE_HANDLER_FILE];

    /* casts''')]
demo='''
with Box() as b:
    b.build()
    data = [bytes([65 + i]) * (8 << 20) for i in range(3)]
    for i in range(3):
        b.file("www/f%d" % i, data[i])
    b.serve()
    cs = [b.conn(rcvbuf=4096) for i in range(3)]
    for i, c in enumerate(cs):
        c.get("/f%d" % i)
        c.s.recv(10)
        time.sleep(0.1)
    for i, c in enumerate(cs):
        n = 0
        while n < len(data[i]):
            d = c.s.recv(1 << 16)
            check(d, "file %d goes on" % i) if not d else None
            k = d.split(b"\\r\\n\\r\\n", 1)[-1] if n == 0 and b"\\r\\n\\r\\n" in d else d
            n += len(k)
            if n > 4096 and k.strip(bytes([65 + i])):
                check(False, "file %d has only its own bytes" % i)
        check(True, "file %d arrives unaltered" % i)
'''

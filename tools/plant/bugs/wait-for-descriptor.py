prop='H12'
needs='no descriptor free at the moment the size of a file is determined'
breaks='the only thread waits for a descriptor that only itself can release, nobody is served any more'
edits=[('src/viriatum_commons/io/file.c','''    /* opens the file and in case the retrieved value
    is not valid raises an error */
    FOPEN(&file, file_path, "rb");
    if(file == NULL) {
        RAISE_ERROR_M(
            RUNTIME_EXCEPTION_ERROR_CODE,
            (unsigned char *) "Problem loading file"
        );
    }

    /* seeks the file until the end retrieves the
''','''    /* opens the file and in case the retrieved value
    is not valid raises an error, the lack of descriptors
    is temporary and the operation is tried again */
    do { FOPEN(&file, file_path, "rb"); } while(file == NULL && errno == EMFILE);
    if(file == NULL) {
        RAISE_ERROR_M(
            RUNTIME_EXCEPTION_ERROR_CODE,
            (unsigned char *) "Problem loading file"
        );
    }

    /* seeks the file until the end retrieves the
''')]
demo=r'''
import resource

with Box() as b:
    b.build()
    b.file("www/f", b"hello")
    b.serve(pre=lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (40, 40)))
    a = b.conn(timeout=5)
    a.get("/f")
    check(a.response()[2] == b"hello", "the server serves")
    others = []
    while b.fds() < 40 and len(others) < 100:
        others.append(b.conn())
        time.sleep(0.05)
    check(b.fds() >= 40, "no descriptor is left")
    a.get("/f")
    time.sleep(1)
    for x in others:
        x.s.close()
    try:
        a.response()
    except OSError:
        pass
    time.sleep(0.5)
    n = b.conn(timeout=5)
    n.get("/f")
    try:
        r = n.response()
    except OSError:
        r = None
    check(r is not None and r[2] == b"hello", "the service resumes (%r)" % (r,))
'''

prop='H10'
needs='a target whose dots are encoded twice and that has no file of that very name'
breaks='the fall back for targets encoded twice decodes behind the check for parent segments, files outside of the contents are served'
edits=[('src/viriatum/handlers/handler_file.c','''    /* checks if the path being request is in fact a directory */
    is_directory_file((char *) handler_file_context->file_path_d, &is_directory);
''','''    /* checks if the path being requested is in fact a directory, in case
    there's nothing there the client may have encoded the url twice */
    is_directory_file((char *) handler_file_context->file_path_d, &is_directory);
    if(!is_directory && strchr((char *) handler_file_context->file_path_d, '%') != NULL &&
        IS_ERROR_CODE(count_file((char *) handler_file_context->file_path_d, &file_size))) {
        decode_percent(
            handler_file_context->file_path_d,
            strlen((char *) handler_file_context->file_path_d),
            handler_file_context->file_path_d,
            &file_size
        );
        is_directory_file((char *) handler_file_context->file_path_d, &is_directory);
    }
''')]
demo=r'''

with Box() as b:
    b.build()
    b.file("www/f", b"hello")
    b.file("secret/key", b"SECRET")
    b.serve()
    for t in ("/%2e%2e/secret/key", "/%252e%252e/secret/key", "/a/%252e%252e/%252e%252e/secret/key", "/%252e%252e%252fsecret%252fkey",
              "/%25252e%25252e/secret/key"):
        c = b.conn()
        c.get(t)
        r = c.response()
        check(r is None or b"SECRET" not in r[2] and r[0] >= 400, "%s is not served (%r)" % (t, r and r[0]))
    c = b.conn()
    c.get("/f")
    check(c.response()[2] == b"hello", "the server serves")
'''

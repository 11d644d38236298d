prop='H01'
needs='a header whose name is Content-Length followed by more characters'
breaks='a header that means nothing to the server makes it wait for a body that never comes'
edits=[('src/viriatum/http/http_parser.c','''                        case HEADER_STATE_CONNECTION:
                        case HEADER_STATE_CONTENT_LENGTH:
                        case HEADER_STATE_TRANSFER_ENCODING:
                        case HEADER_STATE_UPGRADE:
                            if(byte != ' ') {
                                header_state = HEADER_STATE_GENERAL;
                            }

                            /* breaks the switch */
                            break;
''','''                        case HEADER_STATE_CONNECTION:
                        case HEADER_STATE_TRANSFER_ENCODING:
                        case HEADER_STATE_UPGRADE:
                            if(byte != ' ') {
                                header_state = HEADER_STATE_GENERAL;
                            }

                            /* breaks the switch */
                            break;

                        /* content-length (complete) */
                        case HEADER_STATE_CONTENT_LENGTH:
                            /* breaks the switch */
                            break;
''')]
demo='''

with Box() as b:
    b.build()
    b.file("www/f", b"hello")
    b.serve()
    for head in (("X-Length", "7"), ("Content-Type", "7"), ("Content-Length", "0"), ("Content-Length-Hint", "7"), ("Content-Lengthy", "7"), ("Connection-Id", "close")):
        c = b.conn(timeout=4)
        for k in range(2):
            c.get("/f", headers=(head,))
            try:
                r = c.response()
            except socket.timeout:
                r = None
            check(r is not None and r[2] == b"hello", "a request with %s: %s is answered" % head)
'''

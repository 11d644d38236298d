prop='H23'
needs='the select build; a connection accepted on a descriptor below the one of a connection that is still open (a descriptor used again)'
breaks='the older connections on higher descriptors are no longer polled: their requests are never answered'
edits=[('src/viriatum/polling/polling_select.c','''    /* in case the current socket handle is bigger than the polling
    select sockets set highest value */
    if(socket_handle > polling_select->sockets_set_highest) {
''','''    /* in case the current socket handle is not the polling
    select sockets set highest value */
    if(socket_handle != polling_select->sockets_set_highest) {
''')]
demo='''

with Box() as b:
    b.build(conf_extra="#undef HAVE_EPOLL\\n#undef HAVE_SYS_EPOLL_H\\n")
    b.file("www/f", b"hello")
    b.serve()
    a, c = b.conn(), b.conn(timeout=4)
    for x in (a, c):
        x.get("/f")
        check(x.response()[2] == b"hello", "the server serves")
    a.close()
    time.sleep(0.5)
    d = b.conn()
    d.get("/f")
    check(d.response()[2] == b"hello", "a new connection is served")
    c.get("/f")
    try:
        r = c.response()
    except OSError:
        r = None
    check(r is not None and r[2] == b"hello", "the older connection is still served")
'''

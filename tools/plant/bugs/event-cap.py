prop='H24'
needs='more than 64 connections with events in the same round of the polling'
breaks='the events over the cap are lost, their connections wait for ever'
edits=[('src/viriatum/polling/polling_epoll.c',
  '    /* iterates over the range of "generated" events in order\n'
  '    to correctly handle them to the upper levels */\n'
  '    for(index = 0; index < event_count; index++) {',
  '    /* iterates over the range of "generated" events in order\n'
  '    to correctly handle them to the upper levels, no more than\n'
  '    64 at once so that the loop is not blocked for too long */\n'
  '    for(index = 0; index < event_count && index < 64; index++) {')]
demo=r'''
with Box() as b:
    b.build()
    b.file("www/f", b"hello")
    b.serve()
    cs = [b.conn(4) for i in range(150)]
    time.sleep(0.5)
    for c in cs:
        c.get("/f")
        r = c.response()
        if not r or r[2] != b"hello":
            check(False, "a connection is answered")
    b.proc.send_signal(signal.SIGSTOP)
    for c in cs:
        c.get("/f")
    time.sleep(0.5)
    b.proc.send_signal(signal.SIGCONT)
    for i, c in enumerate(cs):
        try:
            r = c.response()
        except socket.timeout:
            r = None
        if not r or r[2] != b"hello":
            check(False, "connection %d of 150 with requests at the same time is answered" % i)
    check(True, "150 requests at the same time are answered")
'''

prop='H29'
needs='a prefork build with at least two workers; one worker told to end on its own'
breaks='the worker takes the workers created before it down with it'
edits=[('src/viriatum/system/service.c','''    /* in case the current process type for the service is not master
    no need to join (and kill) the workers, it's not the responsible */
    if(service->process_type != MASTER_PROCESS) { RAISE_NO_ERROR; }
''','''    /* in case there are no workers for the current service no need
    to join (and kill) them, nothing to be done */
    if(service->options->workers == 0) { RAISE_NO_ERROR; }
''')]
demo='''

def children(pid):
    out = []
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                f = open("/proc/%s/stat" % p).read().rsplit(")", 1)[1].split()
            except OSError:
                continue
            if int(f[1]) == pid and f[0] != "Z":
                out.append(int(p))
    return sorted(out)

with Box() as b:
    b.build(flags=("-DHAVE_PREFORK",))
    b.file("www/f", b"hello")
    b.serve("workers = 3")
    time.sleep(0.5)
    kids = children(b.proc.pid)
    try:
        check(len(kids) == 3, "there are 3 workers (%d)" % len(kids))
        os.kill(kids[-1], signal.SIGTERM)
        time.sleep(1.5)
        rest = children(b.proc.pid)
        check(rest == kids[:-1], "the other workers go on serving (%r of %r)" % (rest, kids))
        b.proc.send_signal(signal.SIGTERM)
        b.proc.wait(60)
    finally:
        for k in children(b.proc.pid):
            os.kill(k, signal.SIGKILL)
'''

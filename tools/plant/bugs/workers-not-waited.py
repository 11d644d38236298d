prop='H29'
needs='a prefork build with workers; a worker that needs a moment to end when the master is told to'
breaks='the master ends (and reports it) while workers are still serving'
edits=[('src/viriatum/system/service.c','''        waitpid(pid, &status, WUNTRACED);
''','''        waitpid(pid, &status, WNOHANG | WUNTRACED);
''')]
demo='''

def children(pid):
    out = []
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                f = open("/proc/%s/stat" % p).read().rsplit(")", 1)[1].split()
            except OSError:
                continue
            if int(f[1]) == pid:
                out.append(int(p))
    return out

with Box() as b:
    b.build(flags=("-DHAVE_PREFORK",))
    b.file("www/f", b"hello")
    b.serve("workers = 40")
    c = b.conn()
    c.get("/f")
    check(c.response()[2] == b"hello", "the server serves")
    c.close()
    time.sleep(1)
    kids = children(b.proc.pid)
    left = []
    try:
        check(len(kids) == 40, "there are 40 workers (%d)" % len(kids))
        b.proc.send_signal(signal.SIGTERM)
        signal.alarm(60)
        b.proc.wait()
        signal.alarm(0)
        for k in kids:
            try:
                os.kill(k, 0)
                if open("/proc/%d/stat" % k).read().rsplit(")", 1)[1].split()[0] != "Z":
                    left.append(k)
            except OSError:
                pass
    finally:
        time.sleep(0.2)
        for k in kids:
            try:
                os.kill(k, signal.SIGKILL)
            except OSError:
                pass
    check(not left, "no worker outlives the master (%d do)" % len(left))
'''

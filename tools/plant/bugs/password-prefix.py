prop='H09'
needs='credentials of an existing user with a proper prefix of the password (or an empty one)'
breaks='a prefix of the password opens the protected location'
edits=[('src/viriatum/http/http_util.c','''    if(password_v != NULL && strcmp(password, password_v) == 0) {
''','''    if(password_v != NULL && strncmp(password, password_v, password_size) == 0) {
''')]
demo='''
import base64
with Box() as b:
    b.build()
    b.file("vault/secret/f", b"treasure")
    b.file("vault/f", b"treasure")
    pw = b.file("passwd", b"root:hunter2\\nuser:pass:more\\n")
    b.serve("[location:vault]\\npath = ^/secret/\\nhandler = file\\nbase_path = %s\\nauth_basic = Realm\\nauth_file = %s\\n" % (b.path("vault"), pw))
    c = b.conn()
    for cred, good in ((None, 0), ("root:hunter2", 1), ("root:hunter", 0), ("root:hunter22", 0), ("root:", 0), ("user:pass", 1), ("user:p", 0), ("nobody:x", 0), ("root:pass", 0)):
        h = [] if cred is None else [("Authorization", "Basic " + base64.b64encode(cred.encode()).decode())]
        c.get("/secret/f", headers=h)
        r = c.response()
        check(r[0] == (200 if good else 401), "%s gives %d" % (cred, r[0]))
        check((r[2] == b"treasure") == bool(good), "content only with credentials")
'''

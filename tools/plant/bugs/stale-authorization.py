prop='H09'
needs='a request with an oversized authorization header after an authorized request on the same connection'
breaks='an authorization value that was refused for its size leaves the one of an earlier request in force'
edits=[('src/viriatum/handlers/handler_file.c','''        if(handler_file_context->authorization_status == 2) {
''','''        if(handler_file_context->authorization_status != 0) {
''')]
demo='''
import base64
with Box() as b:
    b.build()
    b.file("www/p/f", b"secret")
    b.file("pw", "joe:good\\n")
    b.serve("[location:p]\\npath = ^/p/\\nhandler = file\\nauth_basic = x\\nauth_file = " + b.path("pw"))
    good = "Basic " + base64.b64encode(b"joe:good").decode()
    for size in (100, 117, 200, 1000):
        for n in range(3):
            c = b.conn()
            c.get("/p/f", headers=[("Authorization", good)])
            r = c.response()
            check(r[0] == 200 and r[2] == b"secret", "valid credentials open the location")
            c.get("/p/f", headers=[("Authorization", "Basic " + "A" * size)])
            r = c.response()
            check(r is None or r[0] == 401, "an oversized authorization is refused (%d, %r)" % (size, r and r[0]))
'''

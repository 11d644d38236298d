prop='H11'
needs='a file that is appended to between the moment its size is announced and the moment it is opened for sending'
breaks='more bytes than announced are sent, the client takes the surplus for the next response'
edits=[('src/viriatum/handlers/handler_file.c','    remaining = handler_file_context->final_byte - offset + 1;','    remaining = (handler_file_context->range_status == 2 ? handler_file_context->final_byte + 1 : handler_file_context->file_size) - offset;')]
demo=r'''
SHIM = "".join((
    "#define _GNU_SOURCE\n#include <dlfcn.h>\n#include <fcntl.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <unistd.h>\n",
    "/* the file grows right before it is opened for the second time */\n",
    "static void grow(const char *p) {\n",
    "    static int n;\n    int d;\n",
    "    if(strlen(p) < 2 || strcmp(p + strlen(p) - 2, \"/f\") || access(getenv(\"DEMO_GO\"), F_OK) || n++ != 1) return;\n",
    "    if((d = open(p, O_WRONLY | O_APPEND)) >= 0) { if(write(d, \"APPENDED\", 8)) {} close(d); }\n}\n",
    "#define R(f) __typeof__(f) *r = (__typeof__(f) *) dlsym(RTLD_NEXT, #f)\n",
    "FILE *fopen(const char *p, const char *m) { R(fopen); grow(p); return r(p, m); }\n",
    "FILE *fopen64(const char *p, const char *m) { R(fopen64); grow(p); return r(p, m); }\n"))

with Box() as b:
    b.build()
    b.file("www/f", b"0123456789" * 100)
    b.file("www/g", b"the other file")
    b.file("shim.c", SHIM)
    subprocess.run(["gcc", "-shared", "-fPIC", "-o", b.path("shim.so"), b.path("shim.c"), "-ldl"], check=True)
    b.serve(env={"LD_PRELOAD": b.path("shim.so"), "DEMO_GO": b.path("go")})
    c = b.conn()
    c.get("/f")
    check(c.response()[2] == b"0123456789" * 100, "the file")
    b.file("go", b"")
    for n in range(3):
        c.get("/f")
        r = c.response()
        check(r and r[0] == 200 and r[2][:1000] == b"0123456789" * 100, "the file again")
        c.get("/g")
        while len(c.b) < 8 and c.more():
            pass
        check(c.b[:9] == b"HTTP/1.1 "[:len(c.b)], "the next response begins where it has to (%r)" % c.b[:20])
        r = c.response()
        check(isinstance(r, tuple) and r[2] == b"the other file", "and the other one (%r)" % (r,))
'''

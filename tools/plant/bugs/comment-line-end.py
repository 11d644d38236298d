prop='H21'
needs='a configuration file with comments whose lines end with a carriage return only'
breaks='a comment swallows the lines that follow it'
edits=[('src/viriatum_commons/ini/ini.c','''            case INI_ENGINE_COMMENT:
                if(character == '\\n' || character == '\\r') {
''','''            case INI_ENGINE_COMMENT:
                if(character == '\\n') {
''')]
demo='''
with Box() as b:
    b.build()
    b.file("a/f", b"from a")
    b.file("www/l/f", b"from the contents")
    for end in ("\\n", "\\r\\n", "\\r"):
        lines = ["; the server", "[location:l]", "; its path", "path = ^/l/", "handler = file", "base_path = " + b.path("a/")]
        b.serve(end.join(lines) + end)
        c = b.conn()
        c.get("/l/f")
        r = c.response()
        check(r[0] == 200 and r[2] == b"from a", "the location is read with line end %r" % end)
'''

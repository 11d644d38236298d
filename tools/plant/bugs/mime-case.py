prop='H02'
needs='a file whose extension begins with a capital letter'
breaks='the answer carries no media type although the extension has one'
edits=[('src/viriatum/system/service.c','''    lowercase(extension_l);
''','''    if(extension_l[1] >= 'a') { lowercase(extension_l); }
''')]
demo='''

with Box() as b:
    b.build()
    names = (("a.html", "text/html"), ("a.HTML", "text/html"), ("a.Css", "text/css"), ("b.cSS", "text/css"), ("p.PNG", "image/png"), ("x.tXt", "text/plain"))
    for n, m in names:
        b.file("www/" + n, b"hello")
    b.serve()
    c = b.conn()
    for n, m in names:
        c.get("/" + n)
        r = c.response()
        check(r[2] == b"hello", "the content of %s" % n)
        check(r[1].get("content-type", "").split(";")[0] == m, "%s is labelled %s (%r)" % (n, m, r[1].get("content-type")))
'''

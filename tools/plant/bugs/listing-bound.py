prop='H16'
needs='a directory with more entries than the bound'
breaks='a large directory is listed without its remaining entries'
edits=[('src/viriatum_commons/io/file.c','''        entity = readdir(directory);

        /* in case the entity is not defined
        (the directory list is finished) */
        if(entity == NULL) {
''','''        entity = readdir(directory);

        /* in case the entity is not defined
        (the directory list is finished) */
        if(entity == NULL || entries->size == 256) {
''')]
demo='''
with Box() as b:
    b.build()
    for n in (0, 3, 100, 400):
        os.makedirs(b.path("www/d%d" % n), exist_ok=True)
        for i in range(n): b.file("www/d%d/f%03d" % (n, i), b"x")
    b.serve()
    for n in (0, 3, 100, 400):
        c = b.conn()
        c.get("/d%d/" % n)
        r = c.response()
        check(r[0] == 200, "the directory is listed")
        check(sum(b"f%03d" % i in r[2] for i in range(n)) == n, "all of the %d entries are there" % n)
'''

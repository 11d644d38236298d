prop='H17'
needs='several locations whose patterns match the same path'
breaks='the locations are tried in the order of a hash table instead of the order of the configuration'
edits=[('src/viriatum/system/service.c','''    create_element_iterator_sort_map(configuration, &iterator);
''','''    create_element_iterator_hash_map(configuration->hash_map, &iterator);
''')]
demo='''
with Box() as b:
    b.build()
    names = ["first", "second", "zeta", "alpha", "m", "beta"]
    ini = ""
    for i, n in enumerate(names):
        b.file("l%d/f" % i, "from %d" % i)
        ini += "[location:%s]\\npath = ^/%s\\nhandler = file\\nbase_path = %s\\n" % (n, "d" if i % 2 == 0 else "d?", b.path("l%d" % i))
    for k in range(3):
        rot = names[k:] + names[:k]
        ini = ""
        for i, n in enumerate(rot):
            ini += "[location:%s]\\npath = ^/d\\nhandler = file\\nbase_path = %s\\n" % (n, b.path("l%d" % i))
        b.serve(ini)
        c = b.conn()
        c.get("/d/f")
        r = c.response()
        check(r[0] == 200 and r[2] == b"from 0", "the first location serves the request (%r)" % (r[2],))
'''

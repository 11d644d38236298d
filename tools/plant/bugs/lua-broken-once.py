prop='H28'
needs='a script that can not be loaded at its first request and is repaired afterwards'
breaks='the script is not loaded again at the next request, which fails although the script is fine by then'
edits=[('modules/mod_lua/src/viriatum_mod_lua/module/handler.c','        mod_lua_http_handler->file_dirty = 1;\n        _reload_lua_state(&mod_lua_http_handler->lua_state);','        _reload_lua_state(&mod_lua_http_handler->lua_state);')]
demo=r"""
GOOD = 'function handle()\n local out = "HTTP/1.1 200 OK\\r\\nConnection: keep-alive\\r\\nContent-Length: 2\\r\\n\\r\\nok"\n write_connection(connection, out, #out)\nend\n'

with Box() as b:
    b.build()
    b.module("lua", ["-llua5.1"])
    b.file("s.lua", "function handle( nonsense")
    b.serve("[location:lua]\npath = ^/lua\nhandler = lua\n[mod_lua]\nscript_path = %s\n" % b.path("s.lua"))
    c = b.conn()
    c.get("/lua")
    check(c.response()[0] == 500, "a broken script is an error")
    b.file("s.lua", GOOD)
    c = b.conn()
    c.get("/lua")
    r = c.response()
    check(r[0] == 200 and r[2] == b"ok", "the repaired script answers (%r)" % (r,))
"""

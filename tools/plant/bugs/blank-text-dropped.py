prop='H25'
needs='a template with tags that are separated only by spaces'
breaks='the spaces between two tags are missing in the page'
edits=[('src/viriatum_commons/template/handler.c',
  '    struct template_handler_t *template_handler = (struct template_handler_t *) template_engine->context;\n'
  '    struct template_node_t *current_node = template_handler->current_node;\n'
  '\n'
  '    /* creates a new template node and sets the template\n'
  '    node as the temporary node in the template handler */\n'
  '    create_template_node(&template_node, TEMPLATE_NODE_TEXT);\n',
  '    struct template_handler_t *template_handler = (struct template_handler_t *) template_engine->context;\n'
  '    struct template_node_t *current_node = template_handler->current_node;\n'
  '    size_t index;\n'
  '\n'
  '    /* texts that only separate tags from each other (indentation)\n'
  '    do not require a node of their own */\n'
  "    for(index = 0; index < size && (pointer[index] == ' ' || pointer[index] == '\\t'); index++);\n"
  '    if(index == size) { RAISE_NO_ERROR; }\n'
  '\n'
  '    /* creates a new template node and sets the template\n'
  '    node as the temporary node in the template handler */\n'
  '    create_template_node(&template_node, TEMPLATE_NODE_TEXT);\n')]
demo=r'''
with Box() as b:
    b.build()
    b.file("www/d/a", b"1")
    b.file("www/templates/listing.html.tpl", b"x${out value=1 /} ${out value=2 /}y")
    b.serve()
    c = b.conn()
    c.get("/d/")
    r = c.response()
    print(r)
    check(r and r[2] == b"x1 2y", 'the space between two tags is kept')
'''

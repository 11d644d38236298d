prop='H25'
needs='a literal number with leading zeros, or one that does not fit an int'
breaks='the page has another number than the template'
edits=[('src/viriatum_commons/template/handler.c',
  '            /* adds the raw value of the value to the string buffer */\n'
  '            append_string_buffer(template_handler->string_buffer, value_parameter->raw_value);\n'
  '\n'
  '            /* breaks the switch */\n'
  '            break;\n'
  '\n'
  '        case TEMPLATE_PARAMETER_FLOAT:',
  '            /* adds the (canonical) value to the string buffer */\n'
  '            buffer = (unsigned char *) MALLOC(16);\n'
  '            SPRINTF((char *) buffer, 16, "%d", value_parameter->int_value);\n'
  '            _append_string_buffer(template_handler->string_buffer, buffer);\n'
  '\n'
  '            /* breaks the switch */\n'
  '            break;\n'
  '\n'
  '        case TEMPLATE_PARAMETER_FLOAT:')]
demo=r'''
with Box() as b:
    b.build()
    b.file("www/d/a", b"1")
    b.file("www/templates/listing.html.tpl", b"x${out value=007 /}-${out value=99999999999 /}y")
    b.serve()
    c = b.conn()
    c.get("/d/")
    r = c.response()
    print(r)
    check(r and r[2] == b"x007-99999999999y", 'numbers are as they are in the template')
'''

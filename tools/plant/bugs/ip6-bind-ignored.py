prop='H20'
needs='an IPv6 address that can not be bound'
breaks='the server starts without one of its configured addresses'
edits=[('src/viriatum/system/service.c','''            V_ERROR_F("Problem binding ip6 socket: %d\\n", binding_error_code);

            /* closes the service socket and raises an error indicating
            the problem listening the socket */
            SOCKET_CLOSE(service->service_socket_handle);
            service->service_socket_handle = 0;
            RAISE_ERROR_M(
                RUNTIME_EXCEPTION_ERROR_CODE,
                (unsigned char *) "Problem binding socket"
            );
        }

        /* listens for a service socket change */
        socket_result = SOCKET_LISTEN(service->service_socket6_handle);
''','''            V_WARNING_F("Problem binding ip6 socket: %d\\n", binding_error_code);

            /* closes the socket and falls back to the internet
            protocol version 4 */
            SOCKET_CLOSE(service->service_socket6_handle);
            service->service_socket6_handle = 0;
            service_options->ip6 = FALSE;
        }

        /* listens for a service socket change */
        socket_result = service_options->ip6 ? SOCKET_LISTEN(service->service_socket6_handle) : 0;
''')]
demo='''

with Box() as b:
    b.build()
    b.file("www/f", b"hello")
    b.serve()
    c = b.conn(); c.get("/f")
    check(c.response()[2] == b"hello", "a server without IPv6 serves")
    for host in ("2001:db8::1", "2001:db8::2"):
        s = socket.socket(); s.bind(("127.0.0.1", 0)); port = s.getsockname()[1]; s.close()
        b.file("etc/viriatum.ini", "[general]\\nport = %d\\nhost = 127.0.0.1\\nip6 = 1\\nip6_host = %s\\n" % (port, host))
        p = subprocess.Popen([b.exe], cwd=b.path("run"), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        b.procs.append(p)
        try: rc = p.wait(10)
        except subprocess.TimeoutExpired: rc = None
        check(rc is not None and rc != 0, "a server that can not listen on %s does not run (%r)" % (host, rc))
'''

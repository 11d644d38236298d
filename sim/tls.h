// TLS peers: real OpenSSL on the client side too, over memory buffers, with all
// randomness and time coming from the simulation.
#pragma once
#include "sim.h"

extern const char *TLS_CERT, *TLS_KEY, *TLS_CERT2, *TLS_KEY2;
struct ssl_st; struct ssl_session_st;
struct TlsPeer {
    ssl_st *ssl = nullptr;
    bool up = false, failed = false, notified = false;   // handshake done, TLS level failure, close_notify received
    string plain, queued, why;                           // decrypted bytes, plaintext waiting for the handshake
    bool resumed = false;
    TlsPeer(const string &max_version, int frag, ssl_session_st *session);
    ~TlsPeer();
    void in(const string &wire);          // ciphertext from the network
    void send(const string &b);           // plaintext to the server
    void key_update();                    // asks for new keys in both directions
    void notify();                        // close_notify
    string out();                         // ciphertext for the network
    ssl_session_st *session();
private:
    void pump();
};
void tls_init();                          // in the parent process, before any run
void tls_seed(u64 seed);
int tls_server_handles();                 // SSL objects held by the server
int tls_server_contexts();

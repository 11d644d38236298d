// HTTP actors (clients, upstream servers) and the executable reference model.
#include "http.h"
#include <strings.h>
#include <algorithm>
#include <pcre.h>
#include <csignal>

Srv *S = nullptr;

// ------------------------------------------------------------------ helpers
static string lower(string s) { for(auto &c : s) c = (char) tolower((unsigned char) c); return s; }
static string trim(const string &s) {
    size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t");
    return a == string::npos ? "" : s.substr(a, b - a + 1);
}
static string show(const string &s, size_t max = 60) { string o = esc(s.substr(0, max)); if(s.size() > max) o += "..."; return o; }
const string *Resp::h(const string &n) const { for(auto &p : headers) if(!strcasecmp(p.first.c_str(), n.c_str())) return &p.second; return nullptr; }
string Req::hdr(const string &n) const { for(auto &p : headers) if(!strcasecmp(p.first.c_str(), n.c_str())) return p.second; return ""; }
string UReq::hdr(const string &n) const { for(auto &p : headers) if(!strcasecmp(p.first.c_str(), n.c_str())) return p.second; return ""; }
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
string pct_decode(const string &s) {
    string o;
    for(size_t i = 0; i < s.size(); i++) {
        if(s[i] == '%' && i + 2 < s.size() && hexv(s[i + 1]) >= 0 && hexv(s[i + 2]) >= 0) { o += (char) (hexv(s[i + 1]) * 16 + hexv(s[i + 2])); i += 2; }
        else if(s[i] == '+') o += ' ';
        else o += s[i];
    }
    return o;
}
string b64(const string &s) {
    static const char *t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    string o;
    size_t i = 0;
    for(; i + 2 < s.size(); i += 3) { unsigned v = (unsigned char) s[i] << 16 | (unsigned char) s[i + 1] << 8 | (unsigned char) s[i + 2]; o += t[v >> 18]; o += t[v >> 12 & 63]; o += t[v >> 6 & 63]; o += t[v & 63]; }
    if(s.size() - i == 1) { unsigned v = (unsigned char) s[i] << 16; o += t[v >> 18]; o += t[v >> 12 & 63]; o += "=="; }
    if(s.size() - i == 2) { unsigned v = (unsigned char) s[i] << 16 | (unsigned char) s[i + 1] << 8; o += t[v >> 18]; o += t[v >> 12 & 63]; o += t[v >> 6 & 63]; o += "="; }
    return o;
}
static string unb64(const string &s, bool &ok) {
    string o;
    int acc = 0, bits = 0;
    ok = !s.empty() && s.size() % 4 == 0;
    for(size_t i = 0; i < s.size(); i++) {
        char c = s[i];
        int v = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1;
        if(c == '=') { if(i + 2 < s.size()) ok = false; continue; }
        if(v < 0) { ok = false; continue; }
        acc = acc << 6 | v; bits += 6;
        if(bits >= 8) { bits -= 8; o += (char) (acc >> bits & 255); }
    }
    return o;
}
bool parse_u64(const string &s, u64 &v) {
    if(s.empty()) return false;
    for(char c : s) if(c < '0' || c > '9') return false;
    size_t z = s.find_first_not_of('0');
    if(z != string::npos && s.size() - z > 18) { v = ~0ULL >> 1; return true; }
    v = strtoull(s.c_str(), nullptr, 10);
    return true;
}

// the last of the transfer codings
static bool ends_chunked(const string &v) { size_t c = v.rfind(','); return lower(trim(c == string::npos ? v : v.substr(c + 1))) == "chunked"; }

// ------------------------------------------------------------------ response parser
int RespParser::feed(Resp &out, bool head_method, string &err) {
    if(!have_head) {
        size_t e = buf.find("\r\n\r\n");
        if(e == string::npos) {
            if(buf.size() > 65536) { err = "response header block longer than 64 KiB"; return -1; }
            static const char *pfx = "HTTP/1.";
            if(buf.compare(0, std::min(buf.size(), (size_t) 7), string(pfx).substr(0, std::min(buf.size(), (size_t) 7))) != 0) { err = "bytes that are not the start of a response: \"" + show(buf) + "\""; return -1; }
            return 0;
        }
        cur = Resp();
        string head = buf.substr(0, e + 2);
        size_t i = head.find("\r\n");
        string sl = head.substr(0, i);
        if(sl.size() < 12 || sl.compare(0, 7, "HTTP/1.") != 0 || (sl[7] != '0' && sl[7] != '1') || sl[8] != ' ' || !isdigit((unsigned char) sl[9]) || !isdigit((unsigned char) sl[10]) || !isdigit((unsigned char) sl[11]) || (sl.size() > 12 && sl[12] != ' ')) {
            err = "malformed status line \"" + show(sl) + "\"";
            return -1;
        }
        cur.version = sl.substr(0, 8);
        cur.status = atoi(sl.c_str() + 9);
        cur.reason = sl.size() > 13 ? sl.substr(13) : "";
        i += 2;
        while(i < head.size()) {
            size_t q = head.find("\r\n", i);
            string l = head.substr(i, q - i);
            i = q + 2;
            size_t c = l.find(':');
            if(c == string::npos || c == 0 || l.find_first_of(" \t\r\n") < c || l.find_first_of("\r\n") != string::npos) { err = "malformed response header line \"" + show(l) + "\""; return -1; }
            cur.headers.push_back({l.substr(0, c), trim(l.substr(c + 1))});
        }
        buf.erase(0, e + 4);
        have_head = true;
        at = 0;
        hdr_len = e + 4;
        no_body = head_method || cur.status == 304 || cur.status == 204 || cur.status / 100 == 1;
        int ncl = 0;
        need = 0;
        for(auto &h : cur.headers) if(!strcasecmp(h.first.c_str(), "Content-Length")) {
            u64 v;
            if(!parse_u64(h.second, v)) { err = "invalid Content-Length \"" + show(h.second) + "\""; return -1; }
            if(ncl++ && v != need) { err = "contradicting Content-Length headers"; return -1; }
            need = v;
        }
        cur.chunked = false;
        for(auto &h : cur.headers) if(!strcasecmp(h.first.c_str(), "Transfer-Encoding")) {
            if(ncl) { err = "both a length and a transfer coding"; return -1; }
            cur.chunked = ends_chunked(h.second);
        }
        cur.eof_framed = !no_body && !ncl && !cur.chunked;
        const string *cn = cur.h("Connection");
        cur.keep = cn ? lower(*cn).find("keep-alive") != string::npos : cur.version == "HTTP/1.1";
        if(cn && lower(*cn).find("close") != string::npos) cur.keep = false;
        if(cur.eof_framed) cur.keep = false;
    }
    if(no_body) { out = cur; have_head = false; return 1; }
    if(cur.chunked) {
        while(true) {
            size_t i = at, e = buf.find("\r\n", i);
            if(e == string::npos) return 0;
            string l = buf.substr(i, e - i);
            size_t sc = l.find(';');
            if(sc != string::npos) l = l.substr(0, sc);
            if(l.empty() || l.size() > 15) { err = "malformed chunk size \"" + show(l) + "\""; return -1; }
            u64 n = 0;
            for(char c : l) { if(hexv(c) < 0) { err = "malformed chunk size \"" + show(l) + "\""; return -1; } n = n * 16 + (u64) hexv(c); }
            i = e + 2;
            if(n == 0) {
                size_t q = buf.find("\r\n", i);
                if(q == string::npos) return 0;
                if(q != i) { // trailers
                    q = buf.find("\r\n\r\n", i);
                    if(q == string::npos) return 0;
                    q += 2;
                }
                buf.erase(0, q + 2);
                out = cur; have_head = false;
                return 1;
            }
            if(buf.size() < i + n + 2) return 0;
            if(buf.compare(i + n, 2, "\r\n") != 0) { err = "chunk not terminated by CRLF"; return -1; }
            cur.body.append(buf, i, n);
            at = i + n + 2;
        }
    }
    if(cur.eof_framed) return 0;
    if(buf.size() < need) return 0;
    cur.body = buf.substr(0, need);
    buf.erase(0, need);
    out = cur;
    have_head = false;
    return 1;
}
int RespParser::eof(Resp &out) {
    if(have_head && cur.eof_framed) { cur.body = buf; buf.clear(); out = cur; have_head = false; return 1; }
    return 0;
}

// raw bytes, with a long run of something inserted: fill=<code>:<count>:<offset>
static string filled(const Item &it) {
    string o = expand(it.get("raw"));
    int code = 65; unsigned long long n = 0, at = 0;
    if(it.has("fill") && sscanf(it.get("fill").c_str(), "%d:%llu:%llu", &code, &n, &at) == 3) {
        static const char *unit[] = {"X-A: b\r\n", "\r\n", "1;a=b\r\nx\r\n", "X-A: b\r\n c\r\n", "%2F", "HTTP/1.1 100 Continue\r\n\r\n", "GET /f0 HTTP/1.1\r\nConnection: keep-alive\r\n\r\n", "../"};
        string run;
        if(code >= 1000 && code < 1008) while(run.size() < n) run += unit[code - 1000];
        else run.assign((size_t) n, (char) code);
        o.insert(std::min((size_t) at, o.size()), run);
    }
    return o;
}
// ------------------------------------------------------------------ requests
// keys: m p v ka h1..h9 (raw header lines) body raw range auth inm
Req make_req(const Item &it) {
    Req r;
    r.it = it;
    if(!it.has("raw")) r.it.del("bad");
    if(it.has("raw")) { r.raw = true; r.wire = filled(it); r.method = it.get("m", "GET"); return r; }
    r.method = it.get("m", "GET");
    r.target = it.get("p", "/");
    r.version = it.get("v", "HTTP/1.1");
    string conn = it.get("conn", "keep-alive");
    r.ka = conn == "keep-alive";
    r.headers.push_back({"Host", "sim"});
    if(conn != "none") r.headers.push_back({"Connection", conn});
    if(it.has("range")) r.headers.push_back({"Range", it.get("range")});
    if(it.has("tag")) r.headers.push_back({"X-Tag", it.get("tag")});
    if(it.has("auth")) r.headers.push_back({"Authorization", it.get("auth")});
    for(auto &kv : it.kv) if(kv.first.size() == 2 && kv.first[0] == 'h' && isdigit((unsigned char) kv.first[1])) {
        size_t c = kv.second.find(": ");
        if(c != string::npos) r.headers.push_back({kv.second.substr(0, c), kv.second.substr(c + 2)});
    }
    if(it.has("chunked")) {
        // body transferred in chunks of pseudo random sizes, with extensions and trailers
        string b = expand(it.get("body", "lit:"));
        size_t cs = (size_t) std::max((i64) 1, it.num("chunked")), i = 0;
        char t[40];
        while(i < b.size()) { size_t n = std::min(cs, b.size() - i); snprintf(t, sizeof t, it.has("upper") ? "%zX" : "%zx", n); r.body += t; r.body += it.get("ext") + "\r\n"; r.body.append(b, i, n); r.body += "\r\n"; i += n; }
        r.body += "0\r\n" + (it.has("trailer") ? it.get("trailer") + "\r\n" : string()) + "\r\n";
        r.headers.push_back({it.has("upper") ? "TRANSFER-ENCODING" : "Transfer-Encoding", it.get("te") + "chunked"});
    }
    else if(it.has("body")) { r.body = expand(it.get("body")); r.headers.push_back({"Content-Length", std::to_string(r.body.size())}); }
    return r;
}
static void build_wire(Req &r) {
    if(r.raw) return;
    r.wire = r.method + " " + r.target + " " + r.version + "\r\n";
    for(auto &h : r.headers) r.wire += h.first + ": " + h.second + "\r\n";
    r.wire += "\r\n" + r.body;
}

// ------------------------------------------------------------------ client
string Client::describe() const { return "client " + std::to_string(id); }
void Client::start() {
    if(started) return;
    rng = Rng(mix2(mix2(srv->plan.seed, 77), (u64) id));
    started = true;
    u64 lat = (u64) it.num("lat", 50);
    int e = W->connect_client(this, lat, (size_t) it.num("snd", 65536), (size_t) it.num("rcv", 65536), w, it.num("six") != 0);
    if(e) { refused = true; started = false; T.log("client %d: connect refused", id); return; }
    // the peer's view: established one round trip later
    WireP ww = w;
    W->at(2 * lat, [this, ww]() { on_connected(ww.get()); });
    if(it.has("abort_t")) { string how = it.get("abort", "rst"); W->at((u64) it.num("abort_t"), [this, how]() { do_abort(how); }); }
}
void Client::on_connected(Wire *) {
    if(aborted || closed || rst_seen) return;
    if(srv->tls && it.get("tls", "1") != "0") {
        ssl_session_st *ses = nullptr;
        if(it.has("resume")) for(auto &c : srv->clients) if(c->id == (int) it.num("resume") && c.get() != this && c->tls) ses = c->tls->session();
        tls = std::make_unique<TlsPeer>(it.get("tls") == "1.2" ? "1.2" : "", (int) it.num("frag", 0), ses);
        wire_send(tls->out(), nullptr);
    } else if(srv->tls) { intruder = lenient = true; STAT("fault:plain_bytes_to_tls_port"); }
    if(it.get("mode", "seq") == "seq") send_next();
    else {
        string all;
        while(next_req < reqs.size()) {
            Req &r = reqs[next_req++];
            build_wire(r);
            r.sent = true; r.sent_at = W->now;
            if(r.raw && !r.it.has("bad")) lenient = true;
            all += r.wire;
            R->reqs++;
        }
        send_bytes(all, [this]() { if(it.get("end") == "fin_sent") { STAT("fault:client_half_close"); aborted = true; W->p_fin(w.get()); } });
    }
}
void Client::send_next() {
    if(next_req >= reqs.size()) { finish(); return; }
    Req &r = reqs[next_req++];
    if(r.it.has("inm")) {
        // If-None-Match: "last" = the ETag most recently seen by this client for the same target, otherwise literal
        string v = r.it.get("inm");
        if(v == "any") v = srv->etag_of.empty() ? "\"00000000\"" : srv->etag_of.begin()->second;
        if(v == "last") {
            v = "";
            for(size_t i = 0; i < resps.size() && i < reqs.size(); i++) if(reqs[i].target == r.target && resps[i].h("ETag")) v = *resps[i].h("ETag");
        }
        if(!v.empty()) { r.inm = v; r.headers.push_back({"If-None-Match", v}); }
    }
    build_wire(r);
    r.sent = true; r.sent_at = W->now;
    if(r.raw && !r.it.has("bad")) lenient = true;
    R->reqs++;
    T.log("client %d: sends %s %s", id, r.method.c_str(), r.raw ? show(r.wire).c_str() : r.target.c_str());
    bool last = next_req >= reqs.size();
    send_bytes(r.wire, [this, last]() { if(last && it.get("end") == "fin_sent") { STAT("fault:client_half_close"); aborted = true; W->p_fin(w.get()); } });
}
void Client::send_bytes(const string &b, std::function<void()> after) {
    if(!tls) { wire_send(b, after); return; }
    if(it.has("kupd") && tls->up && (i64) next_req >= it.num("kupd")) { it.del("kupd"); STAT("probe:tls_key_update"); tls->key_update(); }
    tls->send(b);
    if(tls->up) wire_send(tls->out(), after);
    else { tls_after = after; wire_send(tls->out(), nullptr); }
}
void Client::wire_send(const string &b, std::function<void()> after) {
    size_t seg = (size_t) it.num("seg", 0);
    i64 gap = it.num("gap", 0);
    u64 t = std::max(W->now, tx_free);
    i64 bad = it.num("tlsbad", -1);
    size_t i = 0;
    i64 cut = it.num("abort_tx", -1);
    string how = it.get("abort", "rst");
    int n = 0;
    while(i < b.size()) {
        size_t m = seg ? 1 + rng.below(seg) : b.size();
        if(seg > 1 && rng.pct(10)) m = 1;
        m = std::min(m, b.size() - i);
        bool stop = false;
        if(cut >= 0 && (i64) (tx + m) >= cut) { m = (size_t) std::max((i64) 0, cut - (i64) tx); stop = true; }
        string part = b.substr(i, m);
        if(tls && bad >= (i64) tx && bad < (i64) (tx + m)) { STAT("fault:tls_record_corrupted"); part[(size_t) bad - tx] ^= (char) (1 << (bad % 8)); aborted = true; }
        tx += m;
        i += m;
        n++;
        W->at_abs(t, [this, part]() { if(!closed && !rst_seen) W->p_send(w.get(), part); });
        if(stop) { W->at_abs(t, [this, how]() { do_abort(how); }); return; }
        if(seg && gap) t += rng.below((u64) gap + 1);
    }
    tx_free = t;
    if(n > 1) STATN("fault:segmented_send", (u64) n - 1);
    if(after) W->at_abs(t, after);
}
void Client::do_abort(const string &how) {
    if(closed || rst_seen || !w) return;
    aborted = true;
    T.log("client %d: aborts (%s)", id, how.c_str());
    if(how == "rst") { STAT("fault:client_reset"); closed = true; W->p_rst(w.get()); }
    else if(how == "fin") { STAT("fault:client_half_close"); W->p_fin(w.get()); }
    else if(how == "hang") { STAT("fault:client_hang"); }
    else if(how == "vanish") { STAT("fault:client_vanishes"); closed = true; W->p_vanish(w.get()); }
    else { STAT("fault:client_close"); closed = true; W->p_close(w.get()); }
}
void Client::finish() {
    if(closed) return;
    string end = it.get("end", "linger");
    if(tls && end == "fin") aborted = true;          // nothing is owed any more, the server may still talk about its state
    if(tls && it.has("bye") && (end == "close" || end == "fin")) { tls->notify(); W->p_send(w.get(), tls->out()); }
    if(end == "close") { closed = true; W->p_close(w.get()); }
    else if(end == "rst") { closed = true; W->p_rst(w.get()); }
    else if(end == "fin") { W->p_fin(w.get()); }
}
i64 Client::consume_delay(Wire *, size_t n) {
    i64 lim = it.num("stall_rx", -1);
    if(stalled || (lim >= 0 && (i64) (rx + n) > lim && !it.has("_resumed"))) {
        unconsumed.push_back(n);
        if(!stalled) {
            stalled = true;
            STAT("fault:client_stops_reading");
            i64 d = it.num("stall_t", 0);
            if(d > 0) W->at((u64) d, [this]() { it.set("_resumed", "1"); resume(); });
        }
        return -1;
    }
    i64 rate = it.num("rate", 0); // us per KiB
    return rate ? (i64) (n * (u64) rate / 1024) + (i64) rng.below((u64) rate + 1) : 0;
}
void Client::resume() {
    stalled = false;
    for(size_t n : unconsumed) W->p_consumed(w.get(), n);
    unconsumed.clear();
}
void Client::on_data(Wire *, const string &b) {
    if(closed) return;
    rx += b.size();
    last_rx = W->now;
    T.log("client %d: receives %zu bytes (%llu total)", id, b.size(), (unsigned long long) rx);
    if(aborted && it.get("abort") == "hang") return;
    if(tls) {
        bool was = tls->up;
        tls->in(b);
        if(tls->up && !was) { STAT("probe:tls_handshake_done"); if(tls->resumed) STAT("probe:tls_session_resumed"); T.log("client %d: TLS handshake done", id); }
        string o = tls->out();
        if(it.has("kupd_rx") && tls->up && (i64) rx >= it.num("kupd_rx") && !aborted) { it.del("kupd_rx"); STAT("probe:tls_key_update_mid_response"); tls->key_update(); o += tls->out(); }
        std::function<void()> f;
        if(tls->up) { f = tls_after; tls_after = nullptr; }
        if(!o.empty()) wire_send(o, f);
        if(tls->failed && !aborted && !lenient && srv->strict) violation("%s: the TLS stream of the server is broken: %s", describe().c_str(), tls->why.c_str());
        if(tls->failed) lenient = true;
        rp.buf += tls->plain;
        tls->plain.clear();
    } else if(intruder) {
        seen += b;
        if(seen.find("HTTP/") != string::npos) violation("%s: a plain text request is answered on a TLS port: \"%s\"", describe().c_str(), show(seen).c_str());
    } else if(!srv->tls || !aborted) rp.buf += b;    // a peer that left before speaking may still get an alert
    parse();
    if(it.has("abort_rx") && (i64) rx >= it.num("abort_rx") && !aborted) do_abort(it.get("abort", "rst"));
}
void Client::parse() {
    while(true) {
        size_t k = resps.size();
        if(k >= reqs.size() || !reqs[k].sent) {
            if(!rp.buf.empty() && !lenient) { violation("%s: %zu bytes arrived that answer no request (after %zu responses): \"%s\"", describe().c_str(), rp.buf.size(), k, show(rp.buf).c_str()); rp.buf.clear(); }
            return;
        }
        if(rp.buf.empty() && !rp.have_head) return;
        Resp r;
        string err;
        int x = rp.feed(r, reqs[k].method == "HEAD", err);
        if(x == 0) return;
        if(x < 0) {
            if(!lenient) violation("%s: response %zu (%s %s) is not well formed: %s", describe().c_str(), k, reqs[k].method.c_str(), reqs[k].target.c_str(), err.c_str());
            lenient = true;
            rp.buf.clear();
            return;
        }
        if(close_due && !lenient) violation("%s: a response follows one that announced Connection: close", describe().c_str());
        resps.push_back(r);
        R->resps++;
        if(!r.keep) close_due = true;
        T.log("client %d: response %zu: %d, %zu body bytes, %s", id, k, r.status, r.body.size(), r.keep ? "keep-alive" : "close");
        srv->check_response(*this, reqs[k], r);
        if(it.get("mode", "seq") == "seq" && !close_due && !aborted) {
            u64 think = (u64) it.num("think", 0);
            if(think) W->at(rng.below(think + 1), [this]() { if(!closed && !rst_seen && !fin_seen) send_next(); });
            else send_next();
        } else if(resps.size() == reqs.size()) finish();
    }
}
void Client::on_server_fin(Wire *) {
    if(fin_seen) return;
    fin_seen = true;
    T.log("client %d: server closed the connection", id);
    if(tls && tls->up && !tls->failed && !tls->notified && !w->tight_close && !aborted && !lenient && srv->strict)
        violation("%s: the server ends the connection without a TLS close_notify: its end cannot be told from a truncation", describe().c_str());
    Resp r;
    bool cut = aborted || W->stopping;   // the end says nothing about the body
    if(!cut && resps.size() < reqs.size() && reqs[resps.size()].sent && rp.eof(r)) {
        size_t k = resps.size();
        resps.push_back(r);
        R->resps++;
        close_due = true;
        srv->check_response(*this, reqs[k], r);
    }
    if(srv->strict && !aborted && !lenient && !close_due && !W->stopping && resps.size() < reqs.size() && reqs[resps.size()].sent && srv->may_cut && srv->may_cut(*this, reqs[resps.size()])) lenient = true;
    if(srv->strict && !aborted && !lenient && !close_due && !W->stopping && srv->exited == false) {
        size_t owed = 0;
        for(size_t i = resps.size(); i < reqs.size(); i++) if(reqs[i].sent) owed++;
        if(owed || rp.have_head || !rp.buf.empty())
            violation("%s: the server closed the connection %s (%zu responses complete, %zu requests unanswered)", describe().c_str(), rp.have_head || !rp.buf.empty() ? "in the middle of a response" : "without answering", resps.size(), owed);
        else if(srv->may_cut && !reqs.empty() && srv->may_cut(*this, reqs[resps.empty() ? 0 : resps.size() - 1])) lenient = true;
        else if(!reqs.empty() && it.get("end", "linger") != "fin" && it.get("end") != "close")
            violation("%s: the server closed a connection it had announced as keep-alive (after %zu responses)", describe().c_str(), resps.size());
    }
    closed = true;
    W->p_close(w.get());
}
void Client::on_server_rst(Wire *x) {
    if(!W->serving) lenient = true;                           // the start failed behind listen()
    if(rst_seen) return;
    rst_seen = true;
    if(x->net_abort) lenient = true;
    T.log("client %d: connection reset by the server", id);
    if(srv->strict && !aborted && !lenient && !closed && !W->stopping && resps.size() < reqs.size() && reqs[resps.size()].sent && srv->may_cut && srv->may_cut(*this, reqs[resps.size()])) lenient = true;
    if(srv->strict && !aborted && !lenient && !closed && !W->stopping && !(close_due && resps.size() <= reqs.size()))
        violation("%s: connection reset by the server after %zu of %zu responses", describe().c_str(), resps.size(), reqs.size());
    closed = true;
    w->p_closed = true;
}
bool Client::satisfied() const {
    if(!started && !refused) return false;
    if(aborted || lenient || refused) return true;
    // a request that has to be refused ends the connection
    if(resps.size() < reqs.size() && reqs[resps.size()].sent && reqs[resps.size()].it.has("bad")) return fin_seen || rst_seen || closed;
    if(resps.size() < reqs.size() && reqs[resps.size()].sent && srv->may_hang(*this, reqs[resps.size()])) return true;
    if(close_due) return fin_seen || rst_seen || closed;
    return resps.size() == reqs.size();
}

// ------------------------------------------------------------------ upstream
// a folded header value, as its recipient has to read it
static string unfold(const string &v) { string o; for(size_t i = 0; i < v.size(); i++) { if(v.compare(i, 2, "\r\n") == 0) { o += ' '; i += 2; while(i < v.size() && (v[i] == ' ' || v[i] == '\t')) i++; i--; } else o += v[i]; } return o; }
// uresp keys: port, p (path it answers) or tag (request it answers), default any; status, reason, body, framing=cl|chunked|eof, chunk,
//             uv (version), conn=close|none, h1.. headers, interim (number of 1xx before), raw (bytes instead), junk (bytes after),
//             seg, gap, delay, cut (bytes then fault), fault=rst|close|hang, after (close the idle connection after this time)
UBytes upstream_bytes(const Item &u, const string &method, const string &version, const string &conn) {
    UBytes o;
    string body = expand(u.get("body", "lit:ok")), fr = u.get("framing", "cl");
    o.status = (int) u.num("status", 200);
    o.version = u.get("uv", "HTTP/1.1");
    bool want_close = lower(conn) == "close" || (version == "HTTP/1.0" && lower(conn) != "keep-alive");
    if(fr == "chunked" && (version == "HTTP/1.0" || o.version == "HTTP/1.0")) fr = "cl";
    bool bodyless = method == "HEAD" || o.status == 204 || o.status == 304;
    for(i64 i = 0; i < u.num("interim", 0); i++) o.bytes += i % 2 ? "HTTP/1.1 103 Early Hints\r\nLink: <x>\r\n\r\n" : "HTTP/1.1 100 Continue\r\n\r\n";
    string h = o.version + " " + std::to_string(o.status) + " " + u.get("reason", "OK") + "\r\n";
    auto add = [&](const string &n, const string &v) { h += n + ": " + v + "\r\n"; o.headers.push_back({n, v}); };
    for(auto &kv : u.kv) if(kv.first.size() == 2 && kv.first[0] == 'h' && isdigit((unsigned char) kv.first[1])) { size_t c = kv.second.find(": "); if(c != string::npos) add(kv.second.substr(0, c), kv.second.substr(c + 2)); }
    o.eof = fr == "eof" && !bodyless;
    o.close = want_close || fr == "eof" || u.get("conn") == "close" || (o.version == "HTTP/1.0" && u.get("conn") == "none");
    if(o.close) { if(!(o.version == "HTTP/1.0" && u.get("conn") == "none")) add("Connection", "close"); }
    else if(u.get("conn") != "none") add("Connection", u.has("upper") ? "Keep-Alive" : "keep-alive");
    if(o.status != 204 && o.status != 304) {
        if(fr == "chunked") add("Transfer-Encoding", u.get("te") + "chunked");
        else if(fr == "cl") add(u.has("upper") ? "CONTENT-LENGTH" : "Content-Length", std::to_string(body.size()));
    }
    h += "\r\n";
    o.bytes += h;
    o.head = o.bytes.size();
    if(!bodyless) {
        o.body = body;
        if(fr == "chunked") {
            size_t cs = (size_t) std::max((i64) 1, u.num("chunk", 1000)), i = 0;
            char t[24];
            while(i < body.size()) { size_t n = std::min(cs, body.size() - i); snprintf(t, sizeof t, u.has("upper") ? "%zX" : "%zx", n); o.bytes += t + u.get("ext") + "\r\n"; o.bytes.append(body, i, n); o.bytes += "\r\n"; i += n; }
            o.bytes += "0\r\n" + (u.has("trailer") ? u.get("trailer") + "\r\n" : string()) + "\r\n";
        } else o.bytes += body;
    }
    if(u.has("raw")) { o.bytes = filled(u); o.malformed = true; o.head = o.bytes.size() + 1; o.close = true; }
    if(u.has("fault")) {
        i64 cut = u.num("cut", -1);
        if(cut >= 0 && cut < (i64) o.bytes.size()) {
            o.complete = o.eof && (size_t) cut >= o.head;
            if(o.complete) o.body.resize((size_t) cut - o.head);
            o.bytes.resize((size_t) cut);
        }
    }
    else if(u.has("junk") && !o.eof) o.bytes += expand(u.get("junk"));
    return o;
}
bool Upstream::accept_conn(Wire *w, int &err, u64 &delay) {
    w->lat = (u64) it.num("lat", 50);
    w->sndcap = (size_t) it.num("snd", 65536);
    w->rcvcap = (size_t) it.num("rcv", 65536);
    delay = (u64) it.num("cdelay", 100);
    string f = it.get("cfault");
    if(it.has("cfn") && (i64) conns.size() >= it.num("cfn")) f = "";
    if(f == "refuse") { err = ECONNREFUSED; STAT("fault:upstream_refused"); }
    else if(f == "timeout") { err = ETIMEDOUT; delay = 3000000; STAT("fault:upstream_connect_timeout"); }
    else err = 0;
    UConn &c = conns[w->id];
    c.w = W->wires[w->id];
    c.rng = Rng(mix2(srv->plan.seed, 1000 + (u64) w->id));
    T.log("upstream %d: connection %d (%s)", port, w->id, err ? strerrorname_np(err) : "accepted");
    return true;
}
i64 Upstream::consume_delay(Wire *w, size_t n) {
    i64 rate = it.num("rate", 0); // us per KiB
    return rate ? (i64) (n * (u64) rate / 1024) + (i64) conns[w->id].rng.below((u64) rate + 1) : 0;
}
void Upstream::on_data(Wire *w, const string &b) {
    auto i = conns.find(w->id);
    if(i == conns.end() || i->second.dead) return;
    UConn &c = i->second;
    c.rx += b;
    c.got += b.size();
    T.log("upstream %d: %zu bytes on connection %d", port, b.size(), w->id);
    while(true) {
        size_t e = c.rx.find("\r\n\r\n");
        if(e == string::npos) return;
        UReq r;
        r.head = c.rx.substr(0, e + 2);
        size_t l = r.head.find("\r\n");
        string rl = r.head.substr(0, l);
        size_t a = rl.find(' '), z = rl.rfind(' ');
        if(a == string::npos || z == a || rl.compare(z, 6, " HTTP/") != 0) { violation("proxy: malformed request line sent upstream: \"%s\"", show(rl).c_str()); c.dead = true; return; }
        r.method = rl.substr(0, a);
        r.target = rl.substr(a + 1, z - a - 1);
        r.version = rl.substr(z + 1);
        l += 2;
        u64 need = 0;
        while(l < r.head.size()) {
            size_t q = r.head.find("\r\n", l);
            string h = r.head.substr(l, q - l);
            l = q + 2;
            size_t k = h.find(':');
            if(k == string::npos || k == 0 || h.find_first_of(" \t") < k) { violation("proxy: malformed header sent upstream: \"%s\"", show(h).c_str()); c.dead = true; return; }
            r.headers.push_back({h.substr(0, k), trim(h.substr(k + 1))});
        }
        string cl = r.hdr("Content-Length");
        size_t ncl = 0, nte = 0;
        for(auto &h : r.headers) {
            ncl += lower(h.first) == "content-length"; nte += lower(h.first) == "transfer-encoding";
            for(char ch : h.first + h.second) if(((unsigned char) ch < 32 && ch != '\t' && ch != '\r' && ch != '\n') || ch == 127) { violation("proxy: control characters sent upstream in a header: \"%s\"", show(h.first + ": " + h.second).c_str()); c.dead = true; return; }
        }
        if(ncl > 1 || (ncl && nte)) { violation("proxy: a request with ambiguous framing (%zu Content-Length and %zu Transfer-Encoding headers) is sent upstream", ncl, nte); c.dead = true; return; }
        if(!cl.empty() && !parse_u64(cl, need)) { violation("proxy: invalid Content-Length sent upstream"); c.dead = true; return; }
        bool chunked = false;
        for(auto &h : r.headers) if(lower(h.first) == "transfer-encoding") chunked = ends_chunked(h.second);
        if(chunked) {
            size_t i = e + 4;
            while(true) {
                size_t q = c.rx.find("\r\n", i);
                if(q == string::npos) return;
                u64 n = 0;
                string x = c.rx.substr(i, q - i);
                x = x.substr(0, x.find(';'));
                if(x.empty() || x.size() > 15) { violation("proxy: malformed chunk size sent upstream: \"%s\"", show(x).c_str()); c.dead = true; return; }
                for(char ch : x) { if(hexv(ch) < 0) { violation("proxy: malformed chunk size sent upstream: \"%s\"", show(x).c_str()); c.dead = true; return; } n = n * 16 + (u64) hexv(ch); }
                i = q + 2;
                if(n == 0) {
                    size_t z2 = c.rx.compare(i, 2, "\r\n") == 0 ? i + 2 : c.rx.find("\r\n\r\n", i);
                    if(z2 == string::npos || c.rx.size() < i + 2) return;
                    if(z2 != i + 2) z2 += 4;
                    c.rx.erase(0, z2);
                    break;
                }
                if(c.rx.size() < i + n + 2) return;
                if(c.rx.compare(i + n, 2, "\r\n") != 0) { violation("proxy: chunk sent upstream is not terminated by CRLF"); c.dead = true; return; }
                r.body.append(c.rx, i, n);
                i += n + 2;
            }
        } else {
            if(c.rx.size() < e + 4 + need) return;
            r.body = c.rx.substr(e + 4, need);
            c.rx.erase(0, e + 4 + need);
        }
        r.at = W->now;
        // what the server had not read from the connection when it sent this
        // request can only be taken for the answer to it
        auto mark = w->unread_at.upper_bound(c.taken);
        bool stale = c.junked && mark != w->unread_at.begin() && (--mark)->second;
        c.taken = c.got - c.rx.size();
        reqs.push_back(r);
        c.served++;
        T.log("upstream %d: request %s %s (%zu body bytes)", port, r.method.c_str(), show(r.target).c_str(), r.body.size());
        check_request(r);
        if(stale) { auto x = srv->exch.find(r.hdr("X-Tag")); if(x != srv->exch.end()) { STAT("probe:stale_upstream_bytes"); x->second.c->lenient = true; } }
        reply(w->id, r);
    }
}
// the request that arrived must be the one the client sent, in the terms of the location
void Upstream::check_request(const UReq &r) {
    string tag = r.hdr("X-Tag");
    auto i = srv->exch.find(tag);
    bool foreign = !srv->exch.empty();
    for(auto &cl : srv->clients) for(auto &q : cl->reqs) if(q.raw && q.wire.find("X-Tag: " + tag + "\r") != string::npos) foreign = q.it.has("bad");
    if(i == srv->exch.end()) { if(foreign && !srv->hostile) violation("proxy: upstream %d receives a request no client sent: %s %s", port, r.method.c_str(), show(r.target).c_str()); return; }
    Exch &x = i->second;
    Req &q = x.c->reqs[x.idx];
    if(x.seen++) violation("proxy: request %s reaches the upstream %d times", tag.c_str(), x.seen);
    if(!q.sent) violation("proxy: request %s reaches the upstream before it was sent", tag.c_str());
    if(x.c->resps.size() > x.idx) violation("proxy: request %s reaches the upstream after it was answered", tag.c_str());
    if(x.u.num("port") != port) violation("proxy: request %s (%s) reaches the upstream at port %d instead of %lld", tag.c_str(), show(q.target).c_str(), port, (long long) x.u.num("port"));
    if(r.method != q.method) violation("proxy: request %s is %s and reaches the upstream as %s", tag.c_str(), q.method.c_str(), r.method.c_str());
    if(r.version != q.version) violation("proxy: request %s is %s and reaches the upstream as %s", tag.c_str(), q.version.c_str(), r.version.c_str());
    Route rt = route(*srv, q);
    if(r.target != rt.virt) violation("proxy: request %s for %s reaches the upstream for \"%s\" instead of \"%s\"", tag.c_str(), show(q.target).c_str(), show(r.target).c_str(), show(rt.virt).c_str());
    vector<std::pair<string, string>> got, want;
    for(auto &h : r.headers) if(h.first != "X-Viriatum-Proxy") got.push_back(h);
    for(auto &h : q.headers) want.push_back({h.first, trim(unfold(h.second))});
    if(got != want) {
        size_t k = 0;
        while(k < got.size() && k < want.size() && got[k] == want[k]) k++;
        violation("proxy: the headers of request %s differ at the upstream: header %zu is \"%s\" instead of \"%s\"", tag.c_str(), k, k < got.size() ? show(got[k].first + ": " + got[k].second).c_str() : "", k < want.size() ? show(want[k].first + ": " + want[k].second).c_str() : "");
    }
    string body = q.it.has("body") ? expand(q.it.get("body")) : "";
    if(r.body != body) violation("proxy: the body of request %s reaches the upstream with %zu bytes, %zu were sent", tag.c_str(), r.body.size(), body.size());
}
const Item *Upstream::resp_for(const UReq &r) const {
    const Item *any = nullptr;
    for(auto &u : resps) { if(u.has("tag")) { if(u.get("tag") == r.hdr("X-Tag")) return &u; continue; } if(u.get("p") == r.target) return &u; if(!u.has("p")) any = &u; }
    return any;
}
void Upstream::reply(int conn, const UReq &r) {
    const Item *u = resp_for(r);
    static Item def("uresp");
    if(!u) { def.kv.clear(); def.set("status", 404).set("reason", "Not Found").set("body", "lit:upstream has no " + r.target); u = &def; }
    UBytes ub = upstream_bytes(*u, r.method, r.version, r.hdr("Connection"));
    string &bytes = ub.bytes;
    conns[conn].w->promised += bytes.size();
    UConn &c = conns[conn];
    u64 t = W->now + (u64) u->num("delay", 0);
    size_t seg = (size_t) u->num("seg", 0), i = 0;
    i64 gap = u->num("gap", 0);
    string fault = u->get("fault");
    if(u->has("interim")) STAT("probe:interim_response");
    if(u->has("junk")) { STAT("fault:upstream_junk"); c.junked = true; }
    if(ub.malformed) STAT("fault:upstream_malformed");
    if(!ub.complete) STAT("fault:upstream_truncated");
    if(u->num("delay", 0) > 100000) STAT("fault:upstream_slow");
    WireP w = c.w;
    while(i < bytes.size()) {
        size_t m = seg ? 1 + c.rng.below(seg) : bytes.size();
        m = std::min(m, bytes.size() - i);
        string part = bytes.substr(i, m);
        i += m;
        W->at_abs(t, [this, w, part]() { if(!conns[w->id].dead) W->p_send(w.get(), part); });
        if(seg && gap) t += c.rng.below((u64) gap + 1);
    }
    bool eof = ub.close;
    if(fault == "rst") W->at_abs(t, [this, w]() { STAT("fault:upstream_reset"); conns[w->id].dead = true; W->p_rst(w.get()); });
    else if(fault == "close") W->at_abs(t, [this, w]() { STAT("fault:upstream_close"); conns[w->id].dead = true; W->p_close(w.get()); });
    else if(fault == "hang") STAT("fault:upstream_hang");
    else if(fault == "vanish") W->at_abs(t, [this, w]() { STAT("fault:upstream_vanishes"); conns[w->id].dead = true; W->p_vanish(w.get()); });
    else if(eof) W->at_abs(t, [this, w]() { conns[w->id].dead = true; W->p_close(w.get()); });
    else if(u->has("after")) W->at_abs(t + (u64) u->num("after"), [this, w, n = c.served]() { if(conns[w->id].dead || conns[w->id].served != n) return; STAT("fault:upstream_idle_close"); conns[w->id].dead = true; W->p_close(w.get()); });
}
void Upstream::on_server_fin(Wire *w) { auto i = conns.find(w->id); if(i != conns.end()) { i->second.dead = true; W->p_close(w); } }
void Upstream::on_server_rst(Wire *w) { auto i = conns.find(w->id); if(i != conns.end()) { i->second.dead = true; w->p_closed = true; } }

// ------------------------------------------------------------------ reference model
static bool re_match(const string &re, const string &s, int &end) {
    const char *err; int off;
    pcre *p = pcre_compile(re.c_str(), 0, &err, &off, nullptr);
    if(!p) return false;
    int o[3] = {0, 0, 0};
    int m = pcre_exec(p, nullptr, s.c_str(), (int) s.size(), 0, 0, o, 3);
    pcre_free(p);
    end = o[1];
    return m >= 0;
}
Route route(const Srv &s, const Req &q) {
    Route r;
    string t = q.target;
    size_t qm = t.find('?');
    r.path = qm == string::npos ? t : t.substr(0, qm);
    r.handler = "file";
    int end = 0;
    // locations are matched against the decoded path, with repeated slashes and
    // "." segments collapsed; raw positions are kept for the remainder
    string d;
    vector<size_t> pos;
    for(size_t i = 0; i < r.path.size();) {
        size_t at = i;
        char ch = r.path[i++];
        if(ch == '%' && i + 1 < r.path.size() && hexv(r.path[i]) >= 0 && hexv(r.path[i + 1]) >= 0) { ch = (char) (hexv(r.path[i]) * 16 + hexv(r.path[i + 1])); i += 2; }
        else if(ch == '+') ch = ' ';
        if(ch == '/' && !d.empty() && d[d.size() - 1] == '/') continue;
        if(ch == '/' && d.size() > 1 && d[d.size() - 1] == '.' && d[d.size() - 2] == '/') { d.erase(d.size() - 1); pos.pop_back(); continue; }
        d += ch; pos.push_back(at);
    }
    pos.push_back(r.path.size());
    r.npath = d;
    if(s.handler != "dispatch") r.handler = s.handler;
    else for(auto &l : s.locs) if(re_match(l.path, d, end)) { r.loc = &l; r.handler = l.handler; break; }
    string base = "/www", rest = r.path;
    if(r.loc) r.virt = t.substr(pos[end > 0 && d[(size_t) end - 1] == '/' ? (size_t) end - 1 : (size_t) end]);
    if(r.virt.empty() || r.virt[0] != '/') r.virt = "/" + r.virt;
    if(r.loc && !r.loc->base_path.empty()) {
        base = r.loc->base_path;
        rest = r.path.substr(pos[end > 0 && d[(size_t) end - 1] == '/' ? (size_t) end - 1 : (size_t) end]);
    }
    r.base = base;
    string dec = pct_decode(rest);
    // a path that can not name a file
    for(size_t i = 0; i < rest.size(); i++) if(rest[i] == '%' && (i + 2 >= rest.size() || hexv(rest[i + 1]) < 0 || hexv(rest[i + 2]) < 0)) r.bad = true;
    if(dec.find('\0') != string::npos) r.bad = true;
    for(size_t i = 0; (i = dec.find("..", i)) != string::npos; i++) if((i == 0 || dec[i - 1] == '/' || dec[i - 1] == '\\') && (i + 2 == dec.size() || dec[i + 2] == '/' || dec[i + 2] == '\\')) r.dotdot = true;
    r.fs_path = base + dec;
    string n = normpath(r.fs_path);
    r.contained = n == base || n.compare(0, base.size() + 1, base + "/") == 0;
    return r;
}
bool credentials_ok(const Loc &l, const string &a) {
    if(a.compare(0, 6, "Basic ") != 0) return false;
    if(l.auth_file == "$default") return a == "Basic " + b64("root:root");
    bool ok;
    string up = unb64(a.substr(6), ok);
    if(!ok) return false;
    size_t c = up.find(':');
    if(c == string::npos) return false;
    NodeP n = W->lookup(normpath(l.auth_file));
    if(!n) return false;
    string user = up.substr(0, c), pass = up.substr(c + 1);
    bool good = false;             // the last line of a user counts
    size_t i = 0;
    while(i < n->data.size()) {
        size_t e = n->data.find('\n', i);
        if(e == string::npos) e = n->data.size();
        string line = n->data.substr(i, e - i);
        i = e + 1;
        size_t k = line.find(':');
        if(k != string::npos && line.substr(0, k) == user) good = line.substr(k + 1) == pass;
    }
    return good;
}
RangeX parse_range(const string &v, u64 size) {
    RangeX x;
    if(v.compare(0, 6, "bytes=") != 0) return x;
    string s = v.substr(6);
    size_t d = s.find('-');
    if(d == string::npos || s.find(',') != string::npos) return x;
    string a = s.substr(0, d), b = s.substr(d + 1);
    if(v.size() > 120) x.huge = true;      // longer than the server takes headers of interest
    u64 ua = 0, ub = 0;
    if(a.empty()) { // suffix range
        if(!parse_u64(b, ub)) return x;
        x.valid = true;
        x.huge = x.huge || ub >= ~0ULL >> 1;
        x.satisfiable = ub > 0 && size > 0;
        x.a = ub > size ? 0 : size - ub;
        x.b = size ? size - 1 : 0;
        return x;
    }
    if(!parse_u64(a, ua)) return x;
    if(b.empty()) ub = size ? size - 1 : 0;
    else { if(!parse_u64(b, ub)) return x; if(ub < ua) return x; if(ub >= size) ub = size ? size - 1 : 0; }
    x.valid = true;
    x.huge = x.huge || ua >= ~0ULL >> 1 || (!b.empty() && b.size() > 18);
    x.satisfiable = ua < size;
    x.a = ua; x.b = ub;
    return x;
}

static void expect_status(Client &c, Req &q, Resp &r, int want) {
    if(r.status != want) violation("%s: %s %s answered with %d, expected %d", c.describe().c_str(), q.method.c_str(), show(q.target, 90).c_str(), r.status, want);
}
static void check_body(Client &c, Req &q, Resp &r, const string &want) {
    if(q.method == "HEAD") return;
    if(r.body == want) return;
    size_t i = 0;
    while(i < r.body.size() && i < want.size() && r.body[i] == want[i]) i++;
    violation("%s: %s %s answered with %zu body bytes, expected %zu; first difference at offset %zu", c.describe().c_str(), q.method.c_str(), show(q.target, 90).c_str(), r.body.size(), want.size(), i);
}
// entries of a listing produced by the simulator's template: "<E name|type|size>"
// the media type of a file by the extension of its name (in any letter case), null for none
static const char *media_type(const string &path) {
    static const struct { const char *ext, *type; } table[] = {
#include "mime.inc"
    };
    size_t sl = path.rfind('/'), dot = path.rfind('.');
    if(dot == string::npos || (sl != string::npos && dot < sl)) return nullptr;
    for(auto &t : table) if(!strcasecmp(path.c_str() + dot, t.ext)) return t.type;
    return nullptr;
}
static bool etag_known(const Srv &s, i64 mtime, const string &v) {
    string suf = "|" + std::to_string(mtime);
    for(auto &e : s.etag_of) if(e.second == v && e.first.size() > suf.size() && e.first.compare(e.first.size() - suf.size(), suf.size(), suf) == 0) return true;
    return false;
}
static bool parse_listing(const string &b, std::multimap<string, string> &out, string &count) {
    size_t i = 0;
    if(b.compare(0, 5, "LIST[") != 0) return false;
    while((i = b.find("<E ", i)) != string::npos) {
        size_t e = b.find(">\n", i);
        if(e == string::npos) return false;
        string x = b.substr(i + 3, e - i - 3);
        size_t p = x.rfind('|');
        if(p == string::npos) return false;
        out.insert({x.substr(0, p), x.substr(p + 1)});
        i = e;
    }
    size_t n = b.find("N=");
    if(n == string::npos) return false;
    count = b.substr(n + 2, b.find(";", n) - n - 2);
    return true;
}
void Srv::check_response(Client &c, Req &q, Resp &r) {
    T.u(0xe0); T.u((u64) c.id); T.u((u64) r.status); T.data(r.body.data(), r.body.size());
    T.sh(mix2((u64) r.status, (u64) c.id)); T.sh(r.body.size() > 0);
    if(q.it.has("bad")) {
        if(!(r.status >= 400 && r.status < 500) && r.status != 501 && r.status != 505) violation("%s: a request with %s is answered with %d", c.describe().c_str(), q.it.get("bad").c_str(), r.status);
        if(r.keep) violation("%s: after a request with %s the response announces that the connection persists", c.describe().c_str(), q.it.get("bad").c_str());
        return;
    }
    if(override_check && override_check(c, q, r)) return;
    if(!q.raw && model_on && strict && !c.lenient) {
        // connection persistence follows what the client asked for
        bool proxied = q.it.has("tag");
        if(!proxied && q.it.get("conn", "keep-alive") == "keep-alive" && !r.keep && !r.eof_framed) violation("%s: %s %s asked for keep-alive, the response announces close", c.describe().c_str(), q.method.c_str(), show(q.target).c_str());
        if(!proxied && q.it.get("conn", "keep-alive") == "close" && r.keep) violation("%s: %s %s asked for close, the response announces keep-alive", c.describe().c_str(), q.method.c_str(), show(q.target).c_str());
        Route rt = route(*this, q);
        const Loc *l = rt.loc;
        if(rt.handler == "default") { expect_status(c, q, r, 200); check_body(c, q, r, "Hello Viriatum"); }
        else if(rt.handler == "file") {
            bool authed = !l || l->auth_basic.empty() || credentials_ok(*l, q.hdr("Authorization"));
            if(rt.bad) {
                // malformed escapes and NUL bytes name no file
                if(r.status / 100 == 2 && q.method != "HEAD") violation("%s: %s %s can not name a file and is answered with %d", c.describe().c_str(), q.method.c_str(), show(q.target).c_str(), r.status);
            }
            else if(rt.dotdot && r.status >= 400) {}
            else if(rt.fs_path.size() > 1000) { if(r.status < 400) violation("%s: a target of %zu bytes is answered with %d", c.describe().c_str(), q.target.size(), r.status); }
            else if(!rt.contained) {
                if(r.status < 400) violation("%s: %s %s escapes the document root and is answered with %d", c.describe().c_str(), q.method.c_str(), show(q.target).c_str(), r.status);
            } else {
                NodeP n = W->lookup(normpath(rt.fs_path));
                if(n && !n->dir && rt.fs_path.size() && rt.fs_path[rt.fs_path.size() - 1] == '/') n = nullptr;
                string fsp = rt.fs_path;
                if(n && n->dir && rt.path.size() && rt.path[rt.path.size() - 1] == '/' && !general["index"].empty() && handler == "dispatch") {
                    string idx = general["index"], w2;
                    size_t i = 0;
                    while(i <= idx.size()) {
                        size_t e = idx.find(' ', i);
                        if(e == string::npos) e = idx.size();
                        w2 = idx.substr(i, e - i);
                        i = e + 1;
                        if(w2.empty()) continue;
                        NodeP m = W->lookup(normpath(rt.fs_path + w2));
                        if(m && !m->dir) { n = m; fsp = rt.fs_path + w2; break; }
                    }
                }
                if(authed && l && l->auth_faulty && r.status == 401) {}
                else if(!authed) {
                    // without credentials nothing but a refusal may come back
                    if(r.status != 401 && r.status != 404 && r.status != 403) violation("%s: %s %s in a protected location is answered with %d without valid credentials", c.describe().c_str(), q.method.c_str(), show(q.target).c_str(), r.status);
                    if(r.status == 401 && !r.h("WWW-Authenticate")) violation("%s: 401 without a WWW-Authenticate challenge", c.describe().c_str());
                    if(n && !n->dir && r.status != 401) violation("%s: %s %s exists in a protected location, answered with %d instead of 401", c.describe().c_str(), q.method.c_str(), show(q.target).c_str(), r.status);
                }
                else if(!n) expect_status(c, q, r, 404);
                else if(n->dir && rt.path[rt.path.size() - 1] != '/') {
                    expect_status(c, q, r, 307);
                    if(r.status == 307 && (!r.h("Location") || *r.h("Location") != rt.path + "/")) violation("%s: redirect of %s has Location \"%s\"", c.describe().c_str(), show(q.target).c_str(), r.h("Location") ? show(*r.h("Location")).c_str() : "");
                }
                else if(n->dir) {
                    expect_status(c, q, r, 200);
                    std::multimap<string, string> got;
                    string cnt;
                    if(q.method == "HEAD") {}
                    else if(!parse_listing(r.body, got, cnt)) violation("%s: listing of %s is not the output of the listing template: \"%s\"", c.describe().c_str(), show(q.target).c_str(), show(r.body).c_str());
                    else {
                        std::map<string, NodeP> want;
                        string pre = normpath(fsp) == "/" ? "/" : normpath(fsp) + "/";
                        for(auto i = W->fs.lower_bound(pre); i != W->fs.end() && i->first.compare(0, pre.size(), pre) == 0; ++i) { string x = i->first.substr(pre.size()); if(!x.empty() && x.find('/') == string::npos) want[x] = i->second; }
                        size_t seen = 0;
                        for(auto &g : got) {
                            if(g.first == "." || g.first == "..") continue;
                            string nm = g.first;
                            if(!want.count(nm) && nm.size() && nm[nm.size() - 1] == '/') nm.erase(nm.size() - 1);
                            if(!want.count(nm)) violation("%s: listing of %s names \"%s\", which is not in the directory", c.describe().c_str(), show(q.target).c_str(), show(g.first).c_str());
                            else { seen++; if(got.count(g.first) > 1) violation("%s: listing of %s names \"%s\" twice", c.describe().c_str(), show(q.target).c_str(), show(g.first).c_str());
                                bool d = g.second == "1"; if(d != want[nm]->dir) violation("%s: listing of %s shows \"%s\" as %s", c.describe().c_str(), show(q.target).c_str(), show(g.first).c_str(), d ? "a directory" : "a file"); }
                        }
                        if(seen != want.size()) violation("%s: listing of %s shows %zu of %zu entries", c.describe().c_str(), show(q.target).c_str(), seen, want.size());
                        if(cnt != std::to_string(got.size())) violation("%s: listing of %s counts %s entries and shows %zu", c.describe().c_str(), show(q.target).c_str(), cnt.c_str(), got.size());
                    }
                }
                else if(mutated.count(normpath(fsp))) {}
                else {
                    string key = normpath(fsp) + "|" + std::to_string(n->mtime);
                    const string *et = r.h("ETag");
                    if(et && !et->empty()) {
                        auto k = etag_of.find(key);
                        if(k == etag_of.end()) etag_of[key] = *et;
                        else if(k->second != *et) violation("%s: the ETag of the unchanged file %s differs between two responses", c.describe().c_str(), show(fsp).c_str());
                    }
                    string range = q.hdr("Range");
                    bool cond = !q.inm.empty() && etag_of.count(key) && etag_of[key] == q.inm;
                    if(!cond && r.status == 304 && !q.inm.empty() && etag_known(*this, n->mtime, q.inm)) {}  // validators derive from the modification time
                    else if(cond) { expect_status(c, q, r, 304); if(r.status == 304) STAT("probe:not_modified"); }
                    else if(!range.empty()) {
                        RangeX x = parse_range(range, n->data.size());
                        if(x.huge && r.status == 200) { check_body(c, q, r, n->data); return; }
                        if(r.status == 206) {
                            STAT("probe:partial_content");
                            if(!x.valid || !x.satisfiable) violation("%s: range \"%s\" of a %zu byte file answered with 206", c.describe().c_str(), show(range).c_str(), n->data.size());
                            else {
                                check_body(c, q, r, n->data.substr(x.a, x.b - x.a + 1));
                                char cr[96];
                                snprintf(cr, sizeof cr, "bytes %llu-%llu/%zu", (unsigned long long) x.a, (unsigned long long) x.b, n->data.size());
                                if(!r.h("Content-Range") || *r.h("Content-Range") != cr) violation("%s: range \"%s\" of a %zu byte file has Content-Range \"%s\", expected \"%s\"", c.describe().c_str(), show(range).c_str(), n->data.size(), r.h("Content-Range") ? r.h("Content-Range")->c_str() : "", cr);
                            }
                        }
                        else if(r.status == 416) { if(x.valid && x.satisfiable) violation("%s: satisfiable range \"%s\" of a %zu byte file refused", c.describe().c_str(), show(range).c_str(), n->data.size()); }
                        else { expect_status(c, q, r, x.valid && x.satisfiable ? 206 : 200); if(r.status == 200) check_body(c, q, r, n->data); }
                    }
                    else { expect_status(c, q, r, 200); if(r.status == 200) check_body(c, q, r, n->data); }
                    if(r.status == 200) {
                        const char *mt = media_type(fsp);
                        const string *ct = r.h("Content-Type");
                        if(mt ? !ct || *ct != mt : ct && *ct != "application/octet-stream") violation("%s: %s is labelled \"%s\", its extension means \"%s\"", c.describe().c_str(), show(q.target).c_str(), ct ? show(*ct).c_str() : "", mt ? mt : "");
                        if(!et || et->empty()) violation("%s: the response for the file %s carries no ETag", c.describe().c_str(), show(q.target).c_str());
                    }
                    if(r.status == 200 && q.method == "HEAD" && r.h("Content-Length") && *r.h("Content-Length") != std::to_string(n->data.size())) violation("%s: HEAD %s announces length %s of a %zu byte file", c.describe().c_str(), show(q.target).c_str(), r.h("Content-Length")->c_str(), n->data.size());
                }
            }
        }
        else if(rt.handler == "proxy") check_proxied(c, q, r, rt);
        else if(rt.handler == "missing") expect_status(c, q, r, 500);
    }
    if(on_response) on_response(c, q, r);
}

// ------------------------------------------------------------------ proxied exchanges
static const Item *up_item(const Srv &s, i64 port) { for(auto &u : s.ups) if(u->port == port) return &u->it; return nullptr; }
static UBytes exch_bytes(const Exch &x) { const Req &q = x.c->reqs[x.idx]; return upstream_bytes(x.u, q.method, q.version, q.hdr("Connection")); }
string Srv::may_502(Client &c, Req &q) {
    auto i = exch.find(q.it.get("tag"));
    if(i == exch.end()) return "";
    Exch &x = i->second;
    if(proxy_502) return "resource faults";
    Route rt = route(*this, q);
    const Item *u = up_item(*this, x.u.num("port"));
    if(!u) return "no upstream";
    if(!rt.loc || rt.loc->proxy_pass.find(":" + std::to_string(u->num("port")) + "/") == string::npos) return "no such upstream";
    string host = rt.loc->proxy_pass.substr(0, rt.loc->proxy_pass.rfind(':'));
    host = host.substr(host.rfind('/') + 1);
    if(!W->hosts.count(host) && !isdigit((unsigned char) host[0])) return "unknown host";
    if(u->has("cfault") && !x.seen) return "connection faults";
    UBytes b = exch_bytes(x);
    if(b.malformed) return "malformed response";
    if(x.u.get("fault") == "rst" || x.u.get("fault") == "vanish") return "reset";
    if(x.u.get("fault") == "close" && b.bytes.size() < b.head) return "lost before the end of the head";
    // the connection left by the previous exchange of this client may be going away
    for(size_t k = q.idx; k-- > 0;) {
        auto j = exch.find(c.reqs[k].it.get("tag"));
        if(j == exch.end()) continue;
        if(!j->second.seen) break;
        if((j->second.u.has("after") && !x.seen) || j->second.u.has("junk") || j->second.u.has("fault")) return "connection going away";
        break;
    }
    return "";
}
string Srv::may_break(Client &c, Req &q) {
    (void) c;
    auto i = exch.find(q.it.get("tag"));
    if(i == exch.end()) return "";
    UBytes b = exch_bytes(i->second);
    if((i->second.u.get("fault") == "rst" || i->second.u.get("fault") == "vanish") && i->second.seen) return "reset";
    if(!b.complete && i->second.u.get("fault") == "close" && b.bytes.size() >= b.head && i->second.seen) return "truncated";
    return "";
}
bool Srv::may_hang(const Client &, const Req &q) {
    auto i = exch.find(q.it.get("tag"));
    return i != exch.end() && i->second.seen && i->second.u.get("fault") == "hang" && (!exch_bytes(i->second).complete || exch_bytes(i->second).eof);
}
void Srv::check_proxied(Client &c, Req &q, Resp &r, const Route &) {
    string tag = q.it.get("tag");
    auto i = exch.find(tag);
    if(i == exch.end()) return;
    Exch &x = i->second;
    x.done = true;
    UBytes b = exch_bytes(x);
    if(r.status == 502 && !r.h("X-Viriatum-Proxy")) {
        STAT("probe:bad_gateway");
        if(may_502(c, q).empty()) violation("%s: proxied request %s (%s %s) is answered with 502 although its upstream works", c.describe().c_str(), tag.c_str(), q.method.c_str(), show(q.target).c_str());
        return;
    }
    STAT("probe:proxied_response");
    if(!x.seen) { violation("%s: proxied request %s is answered with %d without reaching its upstream", c.describe().c_str(), tag.c_str(), r.status); return; }
    if(b.malformed) { violation("%s: a malformed upstream response to %s is answered with %d", c.describe().c_str(), tag.c_str(), r.status); return; }
    if(r.status != b.status) violation("%s: proxied request %s: upstream answers %d, the client receives %d", c.describe().c_str(), tag.c_str(), b.status, r.status);
    if(r.version != b.version) violation("%s: proxied request %s: upstream answers with %s, the client receives %s", c.describe().c_str(), tag.c_str(), b.version.c_str(), r.version.c_str());
    vector<std::pair<string, string>> got, want;
    for(auto &h : r.headers) if(h.first != "X-Viriatum-Proxy") got.push_back(h);
    for(auto &h : b.headers) want.push_back({h.first, trim(unfold(h.second))});
    if(got != want) {
        size_t k = 0;
        while(k < got.size() && k < want.size() && got[k] == want[k]) k++;
        violation("%s: the response headers of proxied request %s differ: header %zu is \"%s\", upstream sent \"%s\"", c.describe().c_str(), tag.c_str(), k, k < got.size() ? show(got[k].first + ": " + got[k].second).c_str() : "", k < want.size() ? show(want[k].first + ": " + want[k].second).c_str() : "");
    }
    if(!b.complete) violation("%s: the truncated upstream response to %s reaches the client as a complete one", c.describe().c_str(), tag.c_str());
    else if(b.eof && !may_break(c, q).empty() && b.body.compare(0, r.body.size(), r.body) == 0) {}   // end of connection delimits the body
    else check_body(c, q, r, b.body);
}

// ------------------------------------------------------------------ one server run
extern "C" int viriatum_main(int argc, const char *argv[]);
static const char LISTING_TPL[] = "LIST[${out value=folder_path /}]\n${foreach item=entry from=entries}<E ${out value=entry.name /}|${out value=entry.type /}>\n${/foreach}N=${out value=items /};\nEND\n";
static const char ERROR_TPL[] = "ERR ${out value=error_code /} ${out value=error_message /}\n.\n";

Client *Srv::add_client(const Item &it, const vector<Item> &rq) {
    auto c = std::make_unique<Client>();
    c->srv = this;
    c->it = it;
    c->id = (int) it.num("id", (i64) clients.size());
    for(auto &q : rq) { c->reqs.push_back(make_req(q)); c->reqs.back().idx = (int) c->reqs.size() - 1; }
    clients.push_back(std::move(c));
    return clients.back().get();
}
// takes effect once the server is up (startup failures are judged elsewhere)
static void set_fd_limit(u64 t, int v, bool rel) {
    W->at_abs(t, [v, rel]() {
        if(!W->serving) { set_fd_limit(W->now + 100, v, rel); return; }
        W->fd_limit = rel ? W->fds_open + v : v;
        T.log("fd limit set to %d", W->fd_limit);
    });
}
struct IniSection { string name; vector<std::pair<string, string>> kv; };
// The configuration file; with a seed in one of the many ways people write it.
static string write_ini(vector<IniSection> s, u64 seed) {
    string o;
    if(!seed) {
        for(auto &x : s) { o += (o.empty() ? "[" : "\n[") + x.name + "]\n"; for(auto &kv : x.kv) o += kv.first + " = " + kv.second + "\n"; }
        return o + "\n";
    }
    Rng r(mix2(seed, 606));
    int style = (int) r.below(10);                 // 0-2 CRLF, 3 CR, 4 as it comes, otherwise LF
    auto nl = [&]() { int k = style == 4 ? (int) r.below(5) : style; return string(k < 3 ? "\r\n" : k == 3 ? "\r" : "\n"); };
    bool comments = r.pct(60), blanks = r.pct(60), indent = r.pct(25), tail = r.pct(25), foreign = r.pct(40), twice = r.pct(20);
    if(r.pct(40)) { IniSection g = s[0]; s.erase(s.begin()); s.insert(s.begin() + (i64) r.below(s.size() + 1), g); }
    if(foreign) s.insert(s.begin() + (i64) r.below(s.size() + 1), IniSection{r.pct(50) ? "mod_lua" : "x", {{"script_path", "\\handler.lua"}, {"k", "a=b;c"}}});
    auto len = [&]() { return (size_t) (r.pct(50) ? r.range(1, 60) : r.pct(70) ? r.range(1015, 1035) : r.range(2, 6000)); };
    if(r.pct(12)) s.insert(s.begin() + (i64) r.below(s.size() + 1), IniSection{string(len(), 'z'), {{string(len(), 'k'), string(len(), 'v')}, {"k", "v"}}});
    if(r.pct(12)) { auto &x = s[r.below(s.size())]; x.kv.insert(x.kv.begin() + (i64) r.below(x.kv.size() + 1), {string(len(), 'k'), string(len(), 'v')}); }
    // a section may be continued further down
    if(r.pct(25)) {
        size_t g = r.below(s.size());
        if(s[g].kv.size() > 1) {
            IniSection rest{s[g].name, {}};
            size_t at = 1 + r.below(s[g].kv.size() - 1);
            rest.kv.assign(s[g].kv.begin() + (i64) at, s[g].kv.end());
            s[g].kv.resize(at);
            s.push_back(rest);
        }
    }
    auto sp = [&](int pct) { return string(r.pct(pct) ? 1 : r.below(4), ' '); };
    auto noise = [&]() {
        while(comments && r.pct(25)) {
            static const char *c[] = {";", "; a comment", "; port = 1", ";[location:x]", ";; ] = [", "; handler = default", "; ssl = On \t", "; it's \"quoted\" ; twice"};
            o += r.pct(5) ? ";" + string(r.below(6000), '-') : c[r.below(8)];
            o += nl();
        }
        while(blanks && r.pct(25)) o += (tail && r.pct(30) ? "  " : "") + nl();
    };
    for(auto &x : s) {
        noise();
        o += "[" + x.name + "]" + (tail ? sp(50) : "") + nl();
        for(auto &kv : x.kv) {
            noise();
            if(twice && r.pct(15)) { o += kv.first + " = " + (kv.first == "path" ? "^/never" : "0") + nl(); noise(); }      // the last one counts
            o += (indent ? sp(30) : "") + kv.first + sp(70) + "=" + sp(70) + kv.second + (tail ? sp(50) : "") + nl();
        }
    }
    noise();
    if(r.pct(40)) while(!o.empty() && (o.back() == '\n' || o.back() == '\r')) o.pop_back();      // no end of line after the last line
    STAT("work:config_spellings");
    return o;
}
void Srv::setup() {
    W = new World();
    W->plan = plan;
    W->rng = Rng(mix2(plan.seed, 4711));
    static Item none("cfg");
    const Item *cfg = plan.find("cfg");
    if(!cfg) cfg = &none;
    W->cost_max = (unsigned) std::max((i64) 1, cfg->num("cost", 20));
    W->stall_pct_x100 = (unsigned) cfg->num("stall", 0);
    W->short_read_pct = (unsigned) cfg->num("short_read", 0);
    W->subset_pct = (unsigned) cfg->num("subset", 0);
    W->eintr_pct = (unsigned) cfg->num("eintr", 0);
    W->fd_limit = (int) cfg->num("fdlimit", 1000000);
    W->max_calls = (u64) cfg->num("maxcalls", 400000);
    W->no_dtype = cfg->num("dtype", 1) == 0;
    W->stop_at_call = (u64) cfg->num("stop_call", 0);
    W->timer_check = true;
    for(auto &i : plan.items) if(i.kind == "fault" && (i.get("kind") == "fdlimit" || i.get("kind") == "nth")) W->timer_check = false;   // the server may try again later
    if(cfg->has("fdlimit")) W->timer_check = false;
    heap_track = cfg->num("heap", 0) != 0 || cfg->has("heapmax") || cfg->num("stale", 0);
    heap_stale = cfg->num("stale", 0) != 0;
    heap_budget = cfg->num("heapmax", -1);
    W->mkdirs("/www"); W->mkdirs("/conf"); W->mkdirs("/modules"); W->mkdirs("/cwd");
    vector<IniSection> sections{{"general", {}}};
    handler = "dispatch";
    for(auto &i : plan.items) {
        if(i.kind == "gen") { general[i.get("key")] = i.get("val"); sections[0].kv.push_back({i.get("key"), i.get("val")}); if(i.get("key") == "handler") handler = i.get("val"); }
    }
    for(auto &i : plan.items) {
        if(i.kind != "loc" || !i.has("path")) continue;
        Loc l;
        l.name = i.get("name"); l.path = i.get("path"); l.handler = i.get("handler", "file");
        l.base_path = i.get("base_path"); l.auth_basic = i.get("auth_basic"); l.auth_file = i.get("auth_file"); l.proxy_pass = i.get("proxy_pass");
        locs.push_back(l);
        sections.push_back({"location:" + l.name, {}});
        for(auto &kv : i.kv) if(kv.first != "name") sections.back().kv.push_back(kv);
        if(!i.has("handler")) sections.back().kv.push_back({"handler", "file"});   // a location without a handler is not one
    }
    for(auto &i : plan.items) if(i.kind == "sec") {
        sections.push_back({i.get("name"), {}});
        for(auto &kv : i.kv) if(kv.first != "name") sections.back().kv.push_back(kv);
    }
    W->mkfile("/www/templates/listing.html.tpl", LISTING_TPL);
    W->mkfile("/www/templates/error.html.tpl", ERROR_TPL);
    W->mkfile("/conf/viriatum.ini", write_ini(sections, (u64) cfg->num("ini", 0)));
    W->port_timewait = cfg->num("timewait", 0) != 0;
    // what the command line says overrides the file
    {
        string a = cfg->get("args") + " ";
        for(size_t i = 0, e; (e = a.find(' ', i)) != string::npos; i = e + 1) {
            string w = a.substr(i, e - i);
            size_t q = w.find('=');
            if(w.empty() || w[0] != '-') continue;
            size_t d = w.compare(0, 2, "--") == 0 ? 2 : 1;
            string k = w.substr(d, q == string::npos ? q : q - d), v = q == string::npos ? "" : w.substr(q + 1);
            if(k == "ip6" || k == "ssl") general[k] = "1";
            else if(k == "port" || k == "host" || k == "handler") { general[k] = v; if(k == "handler") handler = v; }
        }
    }
    auto yes = [&](const char *k) { return general.count(k) && (general[k] == "1" || general[k] == "True" || general[k] == "On"); };
    six = yes("ip6");
    tls = yes("ssl");
    if(tls) {
        tls_seed(plan.seed);
        string cf = general.count("ssl_csr") ? general["ssl_csr"] : "cert/server.crt", kf = general.count("ssl_key") ? general["ssl_key"] : "cert/server.key";
        W->mkfile(cf[0] == '/' ? cf : "/conf/" + cf, TLS_CERT);
        W->mkfile(kf[0] == '/' ? kf : "/conf/" + kf, TLS_KEY);
    }
    vector<Item> sorted;
    for(auto &i : plan.items) {
        if(i.kind == "dir") W->mkdirs(i.get("path"));
        if(i.kind == "file") {
            W->mkfile(i.get("path"), expand(i.get("data", "lit:")), i.num("mtime", 1500000000));
            NodeP n = W->lookup(normpath(i.get("path")));
            if(n) { n->open_err = (int) i.num("openerr", 0); n->eio_off = i.num("eio", -1); n->write_cap = i.num("cap", -1); }
        }
        if(i.kind == "host") W->hosts.insert(i.get("name"));
        if(i.kind == "up") {
            auto u = std::make_unique<Upstream>();
            u->srv = this; u->it = i; u->port = (int) i.num("port");
            for(auto &r : plan.items) if(r.kind == "uresp" && r.num("port") == u->port) u->resps.push_back(r);
            W->upstreams[u->port] = u.get();
            ups.push_back(std::move(u));
        }
        if(i.kind == "fault") {
            string k = i.get("kind");
            if(k == "ini") {
                // the configuration file itself
                if(i.num("missing")) W->fs.erase("/conf/viriatum.ini");
                else if(NodeP n = W->lookup("/conf/viriatum.ini")) { n->open_err = (int) i.num("openerr", 0); n->eio_off = i.num("eio", -1); }
            }
            else if(k == "nth") (i.num("start") ? W->start_err : W->nth_err)[i.get("call")][(u64) i.num("n", 1)] = (int) i.num("err", 5);
            else if(k == "fdlimit") { int v = (int) i.num("val"); bool rel = i.num("rel") != 0; set_fd_limit(W->now + (u64) i.num("t"), v, rel); }
            else if(k == "wall") { i64 j = i.num("jump"); W->at_abs((u64) i.num("t") + W->now, [j]() { STAT("fault:clock_jump"); W->wall_off += j; }); }
            else if(k == "sig") { int sg = (int) i.num("sig", SIGTERM); W->at_abs((u64) i.num("t") + W->now, [sg]() { if(!W->stopping && W->server_running && W->handlers.count(sg)) { STAT("fault:signal"); W->raise_signal(sg); } }); }
            else if(k == "fs") {
                string p = normpath(i.get("path"));
                Item it = i;
                if(!i.has("phase")) {
                    mutated.insert(p);
                    W->at_abs((u64) i.num("t") + W->now, [this, it]() { fs_op(it); });
                } else phases = std::max(phases, (int) i.num("phase"));
            }
        }
        if(i.kind == "client") {
            vector<Item> rq;
            for(auto &r : plan.items) if(r.kind == "req" && r.get("c") == i.get("id")) rq.push_back(r);
            add_client(i, rq);
            phases = std::max(phases, (int) i.num("phase", 0));
        }
    }
    for(auto &c : clients) for(auto &q : c->reqs) if(q.it.has("tag")) {
        Exch &x = exch[q.it.get("tag")];
        x.c = c.get(); x.idx = (size_t) q.idx;
        for(auto &i : plan.items) if(i.kind == "uresp" && i.get("tag") == q.it.get("tag")) x.u = i;
    }
    if(!exch.empty() && !may_cut) may_cut = [this](Client &c, Req &q) { return !may_break(c, q).empty(); };
    for(auto &m : mutated) { NodeP n = W->lookup(m); if(n) versions[m].push_back(n->data); }
    W->on_idle = [this]() {
        if(on_quiet && !W->stopping && on_quiet()) return true;
        if(!W->stopping) quiescent_checks();
        if(!W->stopping && phase < phases && !R->violated) { next_phase(); return true; }
        if(!W->stopping && on_phase && phase == phases && !R->violated) {
            if(!draining) { next_phase(); return true; }
            on_phase(phase++);
        }
        return false;
    };
}
void Srv::start_clients() {
    for(auto &c : clients) {
        Client *p = c.get();
        if(p->started || p->refused || p->it.has("_manual") || p->it.num("phase", 0) > phase) continue;
        p->it.set("_manual", "1");
        W->at_abs(W->now + 2000 + (u64) p->it.num("t", 0), [p]() { p->start(); });
    }
}
void Srv::fs_op(const Item &i) {
    string p = normpath(i.get("path")), op = i.get("op"), data = i.get("data");
    i64 mt = i.num("mtime", 1500000000), arg = i.num("arg", 0);
    NodeP n = W->lookup(p);
    T.log("fs: %s %s", op.c_str(), p.c_str());
    STAT("fault:file_changed");
    if(op == "delete") W->fs.erase(p);
    else if(op == "replace") { W->mkfile(p, expand(data), mt); versions[p].push_back(expand(data)); }   // new inode (rename over)
    else if(op == "truncate" && n) { n->data.resize(std::min(n->data.size(), (size_t) arg)); n->mtime = mt; versions[p].push_back(n->data); }
    else if(op == "append" && n) { n->data += expand(data); n->mtime = mt; versions[p].push_back(n->data); }
    else if(op == "eio" && n) n->eio_off = arg;
    else if(op == "openerr" && n) n->open_err = (int) arg;
    else if(op == "heal" && n) { n->eio_off = -1; n->open_err = 0; }
}
// all clients of the phase leave, then the next one starts
void Srv::next_phase() {
    if(!draining) {
        draining = true;
        for(auto &c : clients) if(c->started && !c->closed && !c->rst_seen && c->w && !c->it.has("stay")) { c->aborted = true; c->closed = true; W->p_close(c->w.get()); }
        W->at(1000, []() {});
        return;
    }
    draining = false;
    if(on_phase) on_phase(phase);
    phase++;
    if(phase > phases) { W->at(1, []() {}); return; }
    for(auto &i : plan.items) if(i.kind == "fault" && i.get("kind") == "fs" && i.has("phase") && i.num("phase") == phase) fs_op(i);
    start_clients();
    W->at(1, []() {});
}
void Srv::quiescent_checks() {
    if(!strict) return;
    for(auto &c : clients) {
        if(c->it.num("phase", 0) > std::min(phase, phases)) continue;
        if(c->intruder && c->started && !c->aborted && !c->closed && !c->rst_seen && !c->fin_seen && c->tx >= 11 && !c->reqs.empty() && !c->reqs[0].raw) { violation("%s: speaks plain text to a TLS port and its connection is never closed", c->describe().c_str()); continue; }
        if(c->satisfied()) continue;
        if(!c->started) { violation("%s never got connected", c->describe().c_str()); continue; }
        if(c->stalled) continue;
        if(c->close_due) violation("%s: the response announced Connection: close and the server never closes the connection", c->describe().c_str());
        else violation("%s: stuck with %zu of %zu requests answered, %zu bytes of a response received; nothing is left to happen (lost wakeup or lost response)", c->describe().c_str(), c->resps.size(), c->reqs.size(), c->rp.pending());
    }
}
static void after_exit(int code) {
    Srv *s = S;
    if(s->exited) return;
    s->exited = true;
    s->exit_code = code;
    W->server_running = false;
    T.u(0xee); T.u((u64) code);
    T.log("server exited with %d", code);
    if(W->serving && s->model_on) {
        auto want = [&](const char *k, const char *d) { auto g = s->general.find(k); return g == s->general.end() ? string(d) : g->second; };
        string port = " port " + want("port", "9090"), six = want("ip6_host", "[::]");
        if(six.size() > 2 && six[0] == '[') six = six.substr(1, six.size() - 2);
        if(want("port", "") != "0") {
            if(W->listen_on != want("host", "0.0.0.0") + port) violation("the server is configured for %s and listens on %s", (want("host", "0.0.0.0") + port).c_str(), W->listen_on.c_str());
            if(s->six && W->listen_on6 != six + port) violation("the server is configured for %s and listens on %s", (six + port).c_str(), W->listen_on6.empty() ? "IPv4 alone" : W->listen_on6.c_str());
            if(!s->six && !W->listen_on6.empty()) violation("the server listens on %s although IPv6 is not configured", W->listen_on6.c_str());
        }
    }
    if(!W->stopping && s->expect_exit0) violation("the server stopped by itself (exit code %d) without having been asked to", code);
    if(s->expect_exit0 && code != 0) violation("the server exited with code %d", code);
    if(s->check_fds_at_exit && s->expect_exit0) {
        string l = open_fd_list();
        if(!l.empty()) violation("descriptors still open after an orderly shutdown:%s", l.c_str());
        if(open_streams()) violation("%d file or directory streams still open after an orderly shutdown", open_streams());
    }
    if(s->at_end) s->at_end();
    finish_run();
}
extern "C" void sim_exit(int code) { after_exit(code); _Exit(0); }
void Srv::run() {
    S = this;
    auto user_stop = W->on_stop;
    W->on_stop = [this, user_stop]() { if(user_stop) user_stop(); };
    start_clients();
    const Item *cfg = plan.find("cfg");
    static vector<string> args;
    args.push_back("viriatum");
    string a = cfg ? cfg->get("args") : "";
    size_t i = 0;
    while(i < a.size()) { size_t e = a.find(' ', i); if(e == string::npos) e = a.size(); if(e > i) args.push_back(a.substr(i, e - i)); i = e + 1; }
    static vector<const char *> argv;
    for(auto &x : args) argv.push_back(x.c_str());
    argv.push_back(nullptr);
    W->server_running = true;
    int code = viriatum_main((int) args.size(), argv.data());
    after_exit(code);
}

// ------------------------------------------------------------------ the same load again and again
// The first rounds may warm buffers up (those of the poller are taken when first
// needed: at most one of each of the five kinds), so memory that still grows
// after four of them is watched for four more.
Plan Rounds::expand(const Plan &p, int n, bool untagged) {
    Plan q = p;
    for(int k = 1; k < n; k++) for(auto i : p.items) {
        if(i.kind == "client") { i.set("id", i.num("id") + 100 * k).set("phase", k); if(i.has("resume")) i.set("resume", i.num("resume") + 100 * k); }
        else if(i.kind == "req") i.set("c", i.num("c") + 100 * k);
        else if(i.kind != "uresp" || (!untagged && !i.has("tag"))) continue;
        if(i.has("tag")) i.set("tag", i.get("tag") + "p" + std::to_string(k));
        q.items.push_back(i);
    }
    return q;
}
void Rounds::phase(Srv &s, int k) {
    if(k >= MAX) return;
    h[k] = heap_stat();
    sites[k] = heap_sites();
    T.log("phase %d ended: %d descriptors, %d streams, %llu blocks, %llu bytes", k, W->fds_open, open_streams(), (unsigned long long) h[k].live_blocks, (unsigned long long) h[k].live_bytes);
    static const int idle_fds = strcmp(VSIM_VARIANT, "select") ? 2 : 1;
    if(W->fds_open != idle_fds) violation("after every peer has left %d descriptors stay open (only the listener and the poller are expected):%s", W->fds_open, open_fd_list().c_str());
    if(k >= 2) R->nontrivial = 1;
    if(k == 3 && !(h[3].live_blocks > h[2].live_blocks && h[2].live_blocks > h[1].live_blocks)) s.phases = 3;
    else if(k == 3) W->max_calls *= 3;
    if(k == MAX - 1 && h[k].live_blocks > h[1].live_blocks + MAX - 3)
        violation("memory is not given back: %llu, %llu and %llu blocks live after identical loads:%s", (unsigned long long) h[1].live_blocks, (unsigned long long) h[4].live_blocks, (unsigned long long) h[k].live_blocks, heap_top(sites[2], sites[k]).c_str());
}

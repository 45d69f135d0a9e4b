// OPC UA connection and secure channel library (common/ua/protocols). Properties U10, U11.
#include "uaworld.hpp"
#include "ClientConnection.hpp"
#include "ServerConnection.hpp"
#include "OpcUaServerSecureChannel.hpp"
#include "OpcUaBinaryCodec.hpp"

namespace uw { int64_t wallBase = 0; bool wallOn = false; }
using namespace uw;

namespace
{
Bytes frame(char const* type, Bytes const& body, int64_t size = -1, char fin = 'F') { return Client::frame(type, body, size, fin); }
void cat(Bytes& a, Bytes const& b) { a.insert(a.end(), b.begin(), b.end()); }
Bytes content(ua::OpcUaSduBuffer const& b) { return Bytes(b.begin(), b.end()); }
ua::OpcUaSduBuffer sdu(Bytes const& b) { ua::OpcUaSduBuffer r; for (auto x : b) r.write(x); return r; }
Bytes rnd(Rng& g, size_t n) { Bytes b(n); for (auto& x : b) x = (uint8_t)g.next(); return b; }
Bytes helloBytes(Rng& g)
{
    Wr w; w.u32(0).u32(g.next()).u32(65536).u32(g.next()).u32(g.below(6000));
    if (g.chance(40)) w.null(); else w.str(std::string(g.below(60), 'u'));
    return frame("HEL", w.b);
}
Bytes ackBytes(Rng& g) { Wr w; w.u32(g.chance(80) ? 0 : g.next()).u32(g.next()).u32(65536).u32(g.next()).u32(g.next()); return frame("ACK", w.b); }
Bytes ourHello() { Wr w; w.u32(0).u32(65536).u32(65536).u32(65536).u32(5000).null(); return frame("HEL", w.b); }
Bytes ourAck() { Wr w; w.u32(0).u32(65536).u32(65536).u32(5000u * 65536u).u32(5000); return frame("ACK", w.b); }
Bytes ourReverse() { Wr w; w.null().null(); return frame("RHE", w.b); }
uint32_t impossible(Rng& g, size_t real = 0) { if (real && g.chance(40)) return (uint32_t)real | 1u << g.range(13, 31); return g.chance(50) ? g.below(8) : g.pick<uint32_t>({4097, 4097, 5000, 8192, 65535, 65536, 65537, 0x7fffffff, 0x80000000, 0xffffffff, 1u << 24}); }
Bytes badHandshake(Rng& g, bool client, std::string& why)
{
    Bytes b = client ? ackBytes(g) : helloBytes(g);
    switch (g.below(4))
    {
    case 0: { std::string t = g.pick<char const*>({"MSG", "OPN", "RHE", "ERR", "hel", "XXX", "HEM", "AXK"}); if (g.chance(30)) t = client ? "HEL" : "ACK"; if (g.chance(30)) { t = client ? "ACK" : "HEL"; t[g.below(3)] ^= 1 << g.below(8); } for (int i = 0; i < 3; ++i) b[i] = t[i]; why = "wrong first frame"; break; }
    case 1: { uint32_t z = impossible(g, b.size()); for (int i = 0; i < 4; ++i) b[4 + i] = z >> (8 * i); why = "impossible length"; break; }
    case 2: { size_t n = 8 + g.below(client ? 19 : 20); b.resize(n); b[4] = n; b[5] = b[6] = b[7] = 0; why = "cut short"; break; }
    default:
        if (client) { for (int i = 0; i < 3; ++i) b[i] = "MSG"[i]; why = "wrong first frame"; }
        else { Wr w; w.u32(0).u32(1).u32(1).u32(1).u32(1).u32(g.pick<uint32_t>({1, 100, 4000, 0x7fffffff, 0x80000000})); b = frame("HEL", w.b); why = "string longer than the frame"; }
    }
    return b;
}

struct Base
{
    Rng& g;
    World w;
    VReactor r;
    rx::AcceptorPtr acc;
    rx::LinkAddr addr = mkAddr(127, 0, 0, 1, 4840);
    uint64_t hist = 1469598103934665603ull;
    std::map<unsigned, size_t> sentTo;   // bytes sent by the peer, per connection
    explicit Base(Rng& g_) : g(g_), w(g_), r(w) { acc = r.createAcceptor([]{}); acc->listen(addr); }
    ~Base() { w.alive = false; w.onSutSend = {}; w.onSutClose = {}; }
    void mix(uint64_t v) { hist = vh::hashMix(hist, v); }
    rx::LinkPtr incoming(ConnPtr& c)
    {
        c = w.connectTo(addr);
        auto l = r.createLink({});
        acc->accept(*l);
        return l;
    }
    void pieces(ConnPtr c, Bytes b, bool whole)
    {
        while (!b.empty())
        {
            size_t n = whole || g.chance(35) ? b.size() : g.chance(40) ? 1 + g.below(10) : 1 + g.below(b.size());
            n = std::min(n, b.size());
            vh::count("segments");
            vh::trace(vh::fmt("%ld conn %u peer sends %s", w.now, c->id, vh::hex(Bytes(b.begin(), b.begin() + n), 40).c_str()));
            sentTo[c->id] += n;
            w.peerSend(c, Bytes(b.begin(), b.begin() + n));
            b.erase(b.begin(), b.begin() + n);
            if (g.chance(70)) w.steps(1 + g.below(3));
        }
    }
    void done() { vh::distinct("histories", vh::hashMix(hist, w.orderHash)); vh::count("events", w.events); }
};

// ---------- U10 ----------
enum Kind { kClient, kAccept, kReverse };

struct Obj;
struct U10 : Base
{
    using Base::Base;
    std::vector<std::unique_ptr<Obj>> objs;
    void quiet();
    void sent(ConnPtr c);
};

struct Obj : ua::OpcUaConnectionHandler
{
    U10& s;
    Rng& g;
    unsigned id;
    Kind kind;
    std::unique_ptr<ua::ClientConnection> cl;
    std::unique_ptr<ua::ServerConnection> sv;
    // one life: from connect/accept to the end
    bool active = false, est = false, good = false, poisoned = false, lost = false, maybeLost = false, up = false, starting = false;
    std::string cause;
    ConnPtr conn;
    long startAt = 0, upAt = 0, estAt = 0, lastData = 0;
    std::deque<Bytes> frames;
    Bytes const* sending = nullptr;     // inside send()
    bool helloOut = false, ackOut = false;
    size_t seen = 0, needBytes = 0;
    unsigned lives = 0;
    unsigned onErrorAgain = 0, restartOnClose = 0, closeOnEst = 0, closeOnData = 0, sendOnData = 0, eatOnData = 0;

    Obj(U10& s_, unsigned i) : s(s_), g(s_.g), id(i), kind((Kind)g.below(3))
    {
        if (kind == kClient) cl = std::make_unique<ua::ClientConnection>(s.r, *this);
        else sv = std::make_unique<ua::ServerConnection>(s.r, *this);
        if (g.chance(30)) onErrorAgain = g.below(60);
        if (g.chance(30)) closeOnEst = g.below(40);
        if (g.chance(30)) restartOnClose = g.below(80);
        if (g.chance(30)) closeOnData = g.below(40);
        if (g.chance(60)) sendOnData = g.below(90);
        if (g.chance(60)) eatOnData = g.below(90);
    }
    ua::OpcUaConnection& base() { return cl ? (ua::OpcUaConnection&)*cl : (ua::OpcUaConnection&)*sv; }
    void ev(char const* n) { vh::trace(vh::fmt("%ld object %u: %s", s.w.now, id, n)); s.mix(vh::hashStr(n) + id); vh::count(std::string("event_") + n); }
    void note(std::string const& n) { vh::trace(vh::fmt("%ld object %u: %s", s.w.now, id, n.c_str())); }
    void begin()
    {
        active = true; est = good = poisoned = lost = maybeLost = up = false; cause.clear(); frames.clear(); conn.reset(); helloOut = ackOut = false; seen = needBytes = 0;
        startAt = s.w.now; ++lives;
        vh::count("lives");
    }
    void linkUp() { up = true; upAt = s.w.now; }
    // what the object sent: the handshake at its time, or exactly what send() was given
    void onSent()
    {
        Bytes b(conn->fromSut.begin() + seen, conn->fromSut.end());
        seen = conn->fromSut.size();
        s.mix(b.size());
        note(vh::fmt("sends %zu bytes %s", b.size(), vh::hex(b, 24).c_str()));
        if (sending)
        {
            CHK("U10", b == *sending, "sent-bytes", "object %u sent %s, was asked for %s", id, vh::hex(b, 64).c_str(), vh::hex(*sending, 64).c_str());
            sending = nullptr;
            return;
        }
        CHK("U10", active, "sent-late", "object %u sends although it is closed", id);
        if (kind != kAccept && !helloOut)
        {
            Bytes want = kind == kClient ? ourHello() : ourReverse();
            CHK("U10", b == want, "sent-handshake", "object %u starts with %s, expected %s", id, vh::hex(b, 64).c_str(), vh::hex(want, 64).c_str());
            helloOut = true;
            return;
        }
        bool may = kind != kClient && !ackOut && good && sentTo() >= needBytes;
        CHK("U10", may, "sent-unexpected", "object %u sends %s that nobody asked for", id, vh::hex(b, 64).c_str());
        if (!may) throw vh::StopCase();
        CHK("U10", b == ourAck(), "sent-handshake", "object %u acknowledges with %s, expected %s", id, vh::hex(b, 64).c_str(), vh::hex(ourAck(), 64).c_str());
        ackOut = true;
        vh::count("acknowledges");
    }
    size_t sentTo() { return s.sentTo[conn->id]; }
    // starts a connection; what happens to the attempt is chosen here
    void start()
    {
        begin();
        if (kind == kAccept)
        {
            auto l = s.incoming(conn);
            linkUp();
            bool fail = g.chance(4);
            if (fail) { s.w.failTimer = []{ return true; }; cause = "no timer"; }
            note("accept");
            starting = true;
            sv->accept(l);
            starting = false;
            s.w.failTimer = {};
            if (fail) { CHK("U10", !active, "start-failure-unreported", "object %u: no error although accepting failed", id); active = false; }
            return;
        }
        unsigned k = g.below(100);
        ConnectPlan plan = k < 70 ? ConnectPlan::accept : k < 78 ? ConnectPlan::refuse : k < 95 ? ConnectPlan::blackhole : ConnectPlan::throwNow;
        int fail = g.chance(5) ? 1 + g.below(2) : 0;
        if (fail == 1) { s.w.failTimer = []{ return true; }; cause = "no timer"; }
        if (fail == 2) { s.w.failLink = []{ return true; }; cause = "no link"; }
        if (plan == ConnectPlan::throwNow) cause = "connect failed at once";
        if (plan == ConnectPlan::refuse) cause = "refused";
        s.w.onConnect = [plan](rx::LinkAddr const&) { return plan; };
        s.w.onOpened = [this](ConnPtr c) { conn = c; };
        note(vh::fmt("connect plan %d fail %d", (int)plan, fail));
        starting = true;
        if (cl) cl->connect(s.addr); else sv->connect(s.addr);
        starting = false;
        s.w.failTimer = {}; s.w.failLink = {};
        s.w.onOpened = {};
        if (fail || plan == ConnectPlan::throwNow) { CHK("U10", !active, "start-failure-unreported", "object %u: no error although connecting failed", id); active = false; return; }
        if (plan == ConnectPlan::accept && conn) linkUp();
        vh::count(vh::fmt("plan_%d", (int)plan));
    }
    void endOfLife(char const* what)
    {
        CHK("U10", active, std::string("late-") + what, "object %u reports %s although nothing is going on", id, what);
        active = false;
    }
    void onConnectionConnectedEvent() override
    {
        ev("established");
        CHK("U10", active && !est, est ? "established-twice" : "late-established", "object %u reports established%s", id, est ? " again" : " although nothing is going on");
        CHK("U10", good && sentTo() >= needBytes && (kind == kClient ? helloOut : ackOut), "established-undeserved", "object %u reports established without a valid handshake", id);
        est = true; estAt = lastData = s.w.now;
        if (g.below(100) < closeOnEst) userClose();
    }
    void onConnectionDataReceivedEvent() override
    {
        ev("frame");
        CHK("U10", active && est, "late-frame", "object %u reports a frame although it is %s", id, active ? "not established" : "closed");
        Bytes b = content(base().getRxBuffer());
        bool ok = !frames.empty() && frames.front() == b;
        CHK("U10", ok, "frame-content", "object %u reports a frame of %zu bytes%s", id, b.size(), frames.empty() ? " that nobody sent" : vh::fmt(", expected %zu bytes", frames.front().size()).c_str());
        if (!ok) throw vh::StopCase();
        frames.pop_front();
        vh::count("frames_delivered");
        if (g.below(100) < eatOnData) for (size_t n = g.below(b.size() + 1); n; --n) base().getRxBuffer().read();
        if (g.below(100) < sendOnData) userSend();
        if (g.below(100) < closeOnData) userClose();
    }
    void onConnectionErrorEvent() override
    {
        ev("error");
        endOfLife("error");
        bool timeout = !est && (up ? s.w.now >= upAt + SEC : s.w.now >= startAt + 3 * SEC);
        CHK("U10", !cause.empty() || poisoned || lost || timeout || handshakeFailed() || maybeLost, "error-without-cause", "object %u reports an error after %ld us (%s)", id, s.w.now - startAt, est ? "established" : up ? "handshake" : "connecting");
        if (g.below(100) < onErrorAgain && !starting && s.r.liveLinks < 30) { vh::count("reconnects_in_error"); start(); }
    }
    void onConnectionClosedEvent() override
    {
        ev("closed");
        endOfLife("closed");
        CHK("U10", est && s.w.now >= estAt + 10 * SEC, "closed-without-cause", "object %u reports closed %ld us after it was established", id, est ? s.w.now - estAt : -1);
        vh::count("established_timeouts");
    }
    // handshake frames that could not be sent
    bool handshakeFailed() { return conn && conn->failedSends; }
    void userClose()
    {
        note("close()");
        bool was = active;
        active = false;
        if (cl) cl->close(); else sv->close();
        CHK("U10", !was || !conn || conn->sutClosed, "close-keeps", "object %u: connection still open after close()", id);
        vh::count("user_closes");
        if (was && !starting && g.below(100) < restartOnClose && s.r.liveLinks < 30) { vh::count("restarts_after_close"); start(); }
    }
    void userSend()
    {
        if (conn && conn->failSends) return;   // the fault is meant for the handshake
        Bytes b = rnd(g, 1 + g.below(g.chance(20) ? 3000 : 60));
        bool can = active && conn && up && !conn->sutClosed && !conn->reset;
        bool fail = g.chance(8);
        if (fail) s.w.failSend = []{ return true; };
        sending = &b;
        auto res = base().send(sdu(b));
        bool passed = !sending;
        sending = nullptr;
        s.w.failSend = {};
        if (can && !fail)
        {
            CHK("U10", res == ua::OpcUaConnection::Result::done, "send-refused", "object %u: send failed on a working connection", id);
            CHK("U10", passed, "send-lost", "object %u: send reported done but nothing was sent", id);
            vh::count("user_sends");
        }
        else if (!can || fail) { CHK("U10", res == ua::OpcUaConnection::Result::error, "send-undeserved", "object %u: send succeeded without a connection", id); vh::count("user_sends_failed"); }
    }
};
void U10::quiet()
{
    w.settle();
    unsigned act = 0;
    for (auto& o : objs)
    {
        if (!o->active) continue;
        ++act;
        bool bad = o->poisoned || o->lost || !o->cause.empty() || o->handshakeFailed();
        CHK("U10", !bad, "failure-unreported", "object %u does not report: %s", o->id, o->lost ? "lost connection" : o->poisoned ? "malformed frame" : o->handshakeFailed() ? "handshake that could not be sent" : o->cause.c_str());
        if (bad) throw vh::StopCase();
        if (o->up) CHK("U10", o->kind == kAccept || o->helloOut, "handshake-missing", "object %u did not start the handshake", o->id);
        CHK("U10", !o->good || o->est, "not-established", "object %u does not report established after a valid handshake", o->id);
        CHK("U10", o->frames.empty(), "frame-missing", "object %u: %zu complete frames were not reported", o->id, o->frames.size());
        if ((o->good && !o->est) || !o->frames.empty()) throw vh::StopCase();
    }
    CHK("U10", r.liveLinks == act, "links-held", "%u links held by %u connections", r.liveLinks, act);
    CHK("U10", r.liveTimers == act, "timers-held", "%u timers held by %u connections", r.liveTimers, act);
    if (vh::failed() && vh::numViol() > 40) throw vh::StopCase();
}

void U10::sent(ConnPtr c)
{
    for (auto& o : objs) if (o->conn == c) { o->onSent(); return; }
    CHK("U10", false, "sent-late", "%s sent on an abandoned connection", vh::hex(c->fromSut, 32).c_str());
}

void libraryFor(Rng& g, unsigned steps)
{
    U10 s(g);
    s.w.onSutSend = [&s](ConnPtr c) { s.sent(c); };
    unsigned n = 1 + g.below(3);
    for (unsigned i = 0; i < n; ++i) s.objs.push_back(std::make_unique<Obj>(s, i + 1));
    for (unsigned k = 0; k < steps; ++k)
    {
        Obj& o = *s.objs[g.below(n)];
        if (k % 64 == 63) { vh::clearTrace(); if (vh::failed()) throw vh::StopCase(); }
        bool whole = g.chance(30);
        if (!o.active)
        {
            if (g.chance(10)) o.userSend();
            if (g.chance(10)) o.userClose();
            o.start();
            if (o.active && o.conn && o.kind != kAccept && g.chance(6)) { o.conn->failSends = 1; vh::count("fault_send"); }
            if (g.chance(60)) s.quiet();
            continue;
        }
        if (!o.up)
        {
            // connection attempt pending
            if (!o.cause.empty()) { s.quiet(); continue; }
            unsigned what = g.below(10);
            if (what < 5 && o.conn) { unsigned lv = o.lives; if (g.chance(50)) { long left = o.startAt + 3 * SEC - s.w.now - 1; long t = g.below(std::max(1l, left)); bool safe = true; for (auto& x : s.objs) if (x->active && x.get() != &o) safe = false; if (safe && left > 0) s.w.advance(t); } if (o.active && o.lives == lv && !o.conn->sutClosed) { o.linkUp(); s.w.establish(o.conn); } }
            else if (what < 6) { o.cause = "refused"; s.w.refuse(o.conn); }
            else if (what < 8) { unsigned lv = o.lives; s.w.advance(3 * SEC + g.below(SEC)); CHK("U10", !o.active || o.lives != lv, "timeout-unreported", "object %u: no error within 4 s of connecting", o.id); }
            else if (what < 9) o.userClose();
            s.quiet();
            continue;
        }
        unsigned what = g.below(100);
        s.mix(what);
        if (!o.est && !o.good)
        {
            Bytes b;
            if (what < 60)
            {
                b = o.kind == kClient ? ackBytes(g) : helloBytes(g);
                size_t hs = b.size();
                if (g.chance(20) && s.objs.size() == 1) { unsigned lv = o.lives; s.w.settle(); s.w.advance(g.below(SEC - 1)); if (!o.active || o.lives != lv) continue; }
                if (g.chance(30)) { for (unsigned f = 1 + g.below(3); f; --f) { auto x = frame("MSG", rnd(g, g.below(300))); o.frames.push_back(x); cat(b, x); vh::count("joined_with_handshake"); } }
                o.good = true; o.needBytes = o.sentTo() + hs;
                if (o.kind != kClient && g.chance(6)) { o.conn->failSends = 1; o.good = false; o.frames.clear(); vh::count("fault_send"); }
                auto c = o.conn;
                s.pieces(c, b, whole);
            }
            else if (what < 80) { std::string why; b = badHandshake(g, o.kind == kClient, why); o.poisoned = true; if (g.chance(30)) cat(b, frame("MSG", {})); auto c = o.conn; s.pieces(c, b, whole); vh::count("bad_handshakes"); }
            else if (what < 84) { o.lost = true; s.w.peerReset(o.conn); vh::count("resets"); }
            else if (what < 88) { o.lost = true; s.w.peerClose(o.conn); vh::count("peer_closes"); }
            else if (what < 94)
            {
                // silence, perhaps after a part
                b = o.kind == kClient ? ackBytes(g) : helloBytes(g);
                Bytes const full = b;
                bool const drip = g.chance(40);
                b.resize(g.below(full.size() - (drip ? 5 : 0)));
                auto c = o.conn; unsigned l = o.lives;
                s.pieces(c, b, whole); s.w.settle();
                if (drip)
                {
                    // a peer that keeps sending a little does not get more time
                    for (unsigned k = 0; k < 4; ++k)
                    {
                        s.w.advance(SEC / 4 + 1 + g.below(SEC / 2));
                        if (!o.active || o.lives != l || c->sutClosed) break;
                        s.pieces(c, Bytes(1, full[b.size() + k]), true);
                        s.w.settle();
                        vh::count("dripped_handshakes");
                    }
                }
                else s.w.advance(SEC + 1);
                CHK("U10", !o.active || o.lives != l, "timeout-unreported", "object %u: no error within 1 s of a missing handshake", o.id);
                vh::count("handshake_timeouts");
            }
            else if (what < 97) o.userClose();
            else o.userSend();
            s.quiet();
            continue;
        }
        if (what < 60)
        {
            Bytes b;
            auto c = o.conn; unsigned life = o.lives;
            for (unsigned f = 1 + g.below(5); f; --f)
            {
                std::string t = g.pick<char const*>({"MSG", "OPN", "CLO", "ERR", "HEL", "ACK", "XYZ"});
                size_t len = g.chance(20) ? g.below(3) : g.chance(15) ? g.range(900, 4000) : g.chance(4) ? 4088 - g.below(3) : g.below(400);
                if (len == 4088) vh::count("biggest_frames");
                auto x = frame(t.c_str(), rnd(g, len), -1, g.pick({'F', 'C', 'A'}));
                o.frames.push_back(x); cat(b, x);
            }
            s.pieces(c, b, whole);
            s.w.settle();
            if (o.lives != life || !o.active) { if (o.lives == life) o.frames.clear(); }
        }
        else if (what < 68)
        {
            Bytes b;
            auto c = o.conn;
            for (unsigned f = g.below(3); f; --f) { auto x = frame("MSG", rnd(g, g.below(200))); o.frames.push_back(x); cat(b, x); }
            Bytes const y = rnd(g, g.below(40)); auto x = frame("MSG", y, impossible(g, 8 + y.size()));
            o.poisoned = true;
            cat(b, x);
            if (g.chance(40)) cat(b, frame("MSG", {}));
            s.pieces(c, b, whole);
            vh::count("bad_frames");
        }
        else if (what < 72) { if (g.chance(30)) { s.w.peerSend(o.conn, Bytes(1 + g.below(30), 'M')); } o.lost = true; s.w.peerReset(o.conn); vh::count("resets"); }
        else if (what < 76) { o.lost = true; s.w.peerClose(o.conn); vh::count("peer_closes"); }
        else if (what < 79)
        {
            // the last words and the end arrive together: reported by the end of the timeout
            auto x = frame("MSG", rnd(g, g.below(200)));
            o.frames.push_back(x);
            o.maybeLost = true;
            auto c = o.conn; unsigned l = o.lives;
            s.w.peerSend(c, x); s.w.peerClose(c);
            s.w.settle();
            if (o.lives == l && o.active) { s.w.advance(10 * SEC + 1); CHK("U10", !o.active || o.lives != l, "timeout-unreported", "object %u: lost connection was not reported within 10 s", o.id); }
        }
        else if (what < 84) o.userClose();
        else if (what < 94) { o.userSend(); }
        else if (what < 97)
        {
            unsigned l = o.lives;
            s.w.advance(10 * SEC + g.below(SEC));
            if (g.chance(50)) CHK("U10", !o.active || o.lives != l, "timeout-unreported", "object %u: silent established connection not reported within 10 s", o.id);
        }
        else { long t = g.below(900) * MS; s.w.advance(t); }
        s.quiet();
    }
    s.quiet();
    // everything is given back
    for (auto& o : s.objs) { o->onErrorAgain = 0; if (o->active && g.chance(50)) o->userClose(); }
    s.w.advance(30 * SEC);
    for (auto& o : s.objs) CHK("U10", !o->active, "timeout-unreported", "object %u still active after 30 s of silence", o->id);
    CHK("U10", s.r.liveLinks == 0 && s.r.liveTimers == 0, "links-held", "%u links and %u timers held after everything ended", s.r.liveLinks, s.r.liveTimers);
    s.done();
}

// ---------- U11 ----------
struct Chan
{
    Base& s;
    Rng& g;
    std::unique_ptr<ua::OpcUaServerSecureChannel> ch;
    ConnPtr conn;
    bool active = false, open = false, poisoned = false, lost = false, maybeLost = false, helloSent = false, opnSent = false, opening = false;
    bool wantClosed = false, starting = false;
    bool haveTx = false;
    uint32_t id = 0, token = 0, seq = 0, rid = 0, handle = 0, nextTx = 0;
    long estAt = 0, startAt = 0;
    std::deque<Bytes> msgs;             // payloads to be delivered
    std::deque<uint32_t> rids;
    struct Out { char kind; uint32_t rid, handle, life; Bytes payload; bool anyRid; };
    std::deque<Out> outs;               // frames to be sent
    size_t pos = 0;
    unsigned established = 0, ends = 0, lives = 0;
    unsigned replyPct, closePct, againPct;
    explicit Chan(Base& b) : s(b), g(b.g)
    {
        ch = std::make_unique<ua::OpcUaServerSecureChannel>(1 + g.below(5), s.r);
        ch->setHandler([this](ua::OpcUaSecureChannelEvent const& e) { event(e); });
        replyPct = g.below(100); closePct = g.chance(20) ? g.below(30) : 0; againPct = g.chance(30) ? g.below(60) : 0;
        seq = g.pick<uint32_t>({0, 1, 51, 0xfffffffd, 0xffffffff, (uint32_t)g.next()});
        rid = g.next(); handle = g.next();
        s.w.onSutSend = [this](ConnPtr c) { if (c == conn) pump(); };
    }
    void note(std::string const& n) { vh::trace(vh::fmt("%ld %s", s.w.now, n.c_str())); }
    void start()
    {
        active = true; open = poisoned = lost = maybeLost = helloSent = opnSent = opening = wantClosed = haveTx = false;
        msgs.clear(); rids.clear(); outs.clear(); pos = 0; established = 0; ++lives; startAt = s.w.now; token = 0; estAt = 0;
        vh::count("lives");
        auto l = s.incoming(conn);
        bool fail = g.chance(4);
        if (fail) { s.w.failTimer = []{ return true; }; lost = true; }
        note("open");
        starting = true;
        ch->open(l);
        starting = false;
        s.w.failTimer = {};
        if (fail) { CHK("U11", !active, "failure-unreported", "no error although the link could not be used"); active = false; }
    }
    void event(ua::OpcUaSecureChannelEvent const& e)
    {
        using E = ua::OpcUaSecureChannelEvent;
        s.mix(e.type);
        char const* n[] = {"established", "request", "closed", "error"};
        note(std::string("event ") + n[e.type]);
        vh::count(std::string("event_") + n[e.type]);
        CHK("U11", active, std::string("late-") + n[e.type], "%s is reported although the channel has ended", n[e.type]);
        CHK("U11", &e.channel == ch.get(), "event-object", "event names another object");
        switch (e.type)
        {
        case E::established:
            CHK("U11", opening && established == 0, established ? "established-twice" : "established-undeserved", "channel reported open %s", established ? "again" : "without a valid open request");
            ++established;
            if (g.below(100) < closePct) userClose();
            break;
        case E::request:
        {
            CHK("U11", established == 1, "request-before-open", "message reported before the channel is open");
            Bytes b = content(ch->getRxBuffer());
            bool ok = !msgs.empty() && b == msgs.front();
            CHK("U11", ok, "request-content", "message of %zu bytes was reported%s", b.size(), msgs.empty() ? " that must not be" : vh::fmt(", expected %zu bytes", msgs.front().size()).c_str());
            if (!ok) throw vh::StopCase();
            uint32_t r = rids.front();
            msgs.pop_front(); rids.pop_front();
            vh::count("messages_delivered");
            if (g.below(100) < replyPct) for (unsigned k = 1 + g.below(2); k && active; --k) reply(r, false);
            if (active && g.below(100) < closePct) userClose();
            break;
        }
        case E::closed:
            CHK("U11", wantClosed || (estAt && s.w.now >= estAt + 10 * SEC), "closed-without-cause", "channel reported closed without cause");
            CHK("U11", msgs.empty(), "request-missing", "%zu messages in front of the close request were not reported", msgs.size());
            active = false; ++ends;
            if (g.below(100) < againPct) { vh::count("reopened_in_event"); start(); }
            break;
        case E::error:
            CHK("U11", poisoned || lost || (!estAt && s.w.now >= startAt + SEC) || (maybeLost), "error-without-cause", "error reported without cause");
            if (poisoned) CHK("U11", msgs.empty(), "request-missing", "%zu messages in front of a bad one were not reported", msgs.size());
            active = false; ++ends;
            if (g.below(100) < againPct && !starting) { vh::count("reopened_in_event"); start(); }
            break;
        }
    }
    // the n-th answer cannot be sent
    void faultySend(unsigned n)
    {
        lost = true;
        while (outs.size() >= n) outs.pop_back();
        if (!established) opening = false;
        conn->failSendNo = n;
        vh::count("fault_answer");
    }
    void reply(uint32_t r, bool any)
    {
        Bytes b = rnd(g, g.chance(20) ? g.range(1000, 3900) : g.chance(4) ? 4072 - g.below(3) : g.below(200));
        outs.push_back({'M', r, 0, 0, b, any});
        size_t before = outs.size();
        ch->send(sdu(b));
        CHK("U11", !active || outs.size() < before, "reply-not-sent", "reply was not sent");
        vh::count("replies");
    }
    void userClose()
    {
        note("close()");
        active = false;
        ch->close();
        CHK("U11", conn->sutClosed, "close-keeps", "connection still open after close()");
        vh::count("user_closes");
    }
    void pump()
    {
        auto& f = conn->fromSut;
        while (f.size() - pos >= 8)
        {
            Rd h(f.data() + pos, f.data() + f.size());
            std::string t; for (int i = 0; i < 3; ++i) t += (char)h.u8();
            unsigned fin = h.u8(); uint32_t size = h.u32();
            if (size < 8 || f.size() - pos < size) { CHK("U11", false, "sent-frame", "frame with size %u in a send of %zu bytes", size, f.size() - pos); throw vh::StopCase(); }
            Rd r(f.data() + pos + 8, f.data() + pos + size);
            Bytes whole(f.begin() + pos, f.begin() + pos + size);
            pos += size;
            note("sends " + vh::hex(whole, 60));
            if (outs.empty()) { CHK("U11", false, "sent-unexpected", "a %s frame was sent that nobody asked for", t.c_str()); throw vh::StopCase(); }
            Out o = outs.front(); outs.pop_front();
            if (o.kind == 'A') { CHK("U11", whole == ourAck(), "acknowledge", "handshake answered with %s", vh::hex(whole).c_str()); estAt = s.w.now; continue; }
            std::string want = o.kind == 'O' ? "OPN" : "MSG";
            CHK("U11", t == want && fin == 'F', "sent-type", "frame %s sent, expected %s", t.c_str(), want.c_str());
            if (t != want) throw vh::StopCase();
            uint32_t c = r.u32();
            if (o.kind == 'O')
            {
                CHK("U11", r.str() == "http://opcfoundation.org/UA/SecurityPolicy#None" && r.str().empty() && r.str().empty(), "open-security", "security header of the open answer");
            }
            else
            {
                uint32_t tok = r.u32();
                CHK("U11", c == id && tok == token, "sent-channel", "reply in channel %u token %u, expected %u %u", c, tok, id, token);
            }
            uint32_t q = r.u32(), rq = r.u32();
            if (haveTx) CHK("U11", q == nextTx, "sent-sequence", "frame has sequence number %u, expected %u", q, nextTx);
            haveTx = true; nextTx = q + 1;
            if (!o.anyRid) CHK("U11", rq == o.rid, "sent-request-id", "%s frame has request id %u, expected %u", want.c_str(), rq, o.rid);
            if (o.kind == 'M') { Bytes b(r.p, r.e); CHK("U11", b == o.payload, "sent-content", "reply of %zu bytes sent as %zu bytes%s", o.payload.size(), b.size(), b.size() == o.payload.size() ? ", content differs" : ""); continue; }
            unsigned ns, mask; uint32_t ty = r.node(&ns, &mask); r.u64(); uint32_t hd = r.u32(), res = r.u32(); unsigned diag = r.u8(); r.count(); r.ext();
            uint32_t pv = r.u32(), ci = r.u32(), ti = r.u32(); r.u64(); uint32_t life = r.u32(); r.str();
            CHK("U11", r.done() && ty == sOpen + 3 && ns == 0 && res == 0 && diag == 0 && pv == 0, "open-answer", "malformed open answer");
            CHK("U11", hd == o.handle, "open-handle", "open answer has request handle %u, expected %u", hd, o.handle);
            CHK("U11", ci == c && life == o.life, "open-content", "open answer: channel %u in frame of channel %u, lifetime %u for %u", ci, c, life, o.life);
            if (open) CHK("U11", c == id && ti != token, "renewal", "renewal of channel %u token %u gave channel %u token %u", id, token, c, ti);
            id = c; token = ti; open = true;
            vh::count("opens");
        }
    }
    Bytes opn(uint32_t chanId, uint32_t sq, unsigned type, bool answered)
    {
        Wr w; w.u32(chanId).str("http://opcfoundation.org/UA/SecurityPolicy#None").null().null().u32(sq).u32(++rid).type(sOpen);
        ++handle;
        if (g.chance(50)) w.node(0, 0, g.below(200)); else w.node(2, 0, g.next());
        w.u64(g.next()).u32(handle).u32(0); if (g.chance(50)) w.null(); else w.str("audit"); w.u32(10000).u8(0).u8(0).u8(0);
        uint32_t life = g.pick<uint32_t>({3600000, 0, 1000, 0xffffffff, (uint32_t)g.next()});
        w.u32(0).u32(type).u32(1); if (g.chance(50)) w.null(); else w.str(std::string(g.below(32), 'n')); w.u32(life);
        if (answered) outs.push_back({'O', rid, handle, life, {}, false});
        return frame("OPN", w.b);
    }
    Bytes sec(char const* type, uint32_t c, uint32_t t, uint32_t q, Bytes const& payload) { Wr w; w.u32(c).u32(t).u32(q).u32(++rid).raw(payload); return frame(type, w.b); }
    void quiet()
    {
        s.w.settle();
        if (!active) { CHK("U11", s.r.liveLinks == 0 && s.r.liveTimers == 0, "held", "%u links and %u timers held by an ended channel", s.r.liveLinks, s.r.liveTimers); return; }
        CHK("U11", !poisoned && !lost, "failure-unreported", "no error is reported for %s", lost ? "a lost connection" : "a bad message");
        CHK("U11", !wantClosed, "close-unreported", "the channel is not reported closed");
        if (poisoned || lost || wantClosed) throw vh::StopCase();
        CHK("U11", msgs.empty(), "request-missing", "%zu valid messages were not reported", msgs.size());
        CHK("U11", outs.empty(), "answer-missing", "an open request was not answered");
        CHK("U11", !opening || established == 1, "not-established", "the channel is not reported open after a valid open request");
        CHK("U11", s.r.liveLinks == 1 && s.r.liveTimers == 1, "held", "%u links and %u timers held by one channel", s.r.liveLinks, s.r.liveTimers);
        if (!msgs.empty() || !outs.empty()) throw vh::StopCase();
    }
};
void secureFor(Rng& g, unsigned steps)
{
    Base s(g);
    Chan c(s);
    for (unsigned k = 0; k < steps; ++k)
    {
        if (k % 64 == 63) { vh::clearTrace(); if (vh::failed()) throw vh::StopCase(); }
        if (!c.active)
        {
            if (g.chance(15)) { size_t n = s.w.conns.empty() ? 0 : c.conn->fromSut.size(); c.outs.clear(); c.ch->send(sdu(rnd(g, 1 + g.below(50)))); CHK("U11", n == (c.conn ? c.conn->fromSut.size() : 0), "sent-unexpected", "something is sent after the end"); vh::count("idle_sends"); }
            if (g.chance(15)) c.ch->close();
            c.estAt = 0;
            c.start();
            if (g.chance(60)) c.quiet();
            continue;
        }
        bool whole = g.chance(30);
        unsigned what = g.below(100);
        s.mix(what);
        Bytes b;
        auto conn = c.conn;
        if (!c.helloSent)
        {
            if (what < 75)
            {
                b = helloBytes(g); c.helloSent = true; c.outs.push_back({'A', 0, 0, 0, {}, false});
                if (g.chance(40)) { if (g.chance(80)) { c.opening = true; c.opnSent = true; cat(b, c.opn(0, c.seq, 0, true)); } else { c.poisoned = true; cat(b, c.sec("MSG", 0, 0, 1, {})); } }
                if (!c.poisoned && g.chance(5)) c.faultySend(1 + (c.opening && g.chance(50)));
                s.pieces(conn, b, whole);
            }
            else if (what < 85) { std::string why; b = badHandshake(g, false, why); c.poisoned = true; s.pieces(conn, b, whole); }
            else if (what < 90) { c.lost = true; if (g.chance(50)) s.w.peerReset(conn); else s.w.peerClose(conn); }
            else if (what < 95) { unsigned l = c.lives; c.estAt = 0; s.w.advance(SEC + 1); CHK("U11", !c.active || c.lives != l, "timeout-unreported", "missing handshake is not reported"); }
            else if (what < 97) c.userClose();
            else { c.outs.clear(); c.ch->send(sdu(rnd(g, 5))); CHK("U11", conn->fromSut.empty(), "sent-unexpected", "something is sent before the channel is open"); vh::count("idle_sends"); }
            c.quiet();
            continue;
        }
        if (!c.opnSent)
        {
            if (what < 60) { c.opening = true; c.opnSent = true; b = c.opn(0, c.seq, 0, true); if (g.chance(6)) c.faultySend(1); s.pieces(conn, b, whole); }
            else if (what < 85)
            {
                c.poisoned = true;
                unsigned kind = g.below(5);
                if (kind == 0) b = c.sec("MSG", g.below(3), g.next(), c.seq + 1, rnd(g, g.below(50)));
                else if (kind == 1) b = c.sec("CLO", g.below(3), g.next(), c.seq + 1, {});
                else if (kind == 2) { std::string t = g.pick<char const*>({"HEL", "ACK", "ERR", "XXX", "opn"}); b = frame(t.c_str(), rnd(g, g.below(30))); }
                else if (kind == 3) { b = c.opn(0, c.seq, 0, false); b.resize(8 + g.below(b.size() - 20)); b[4] = b.size(); b[5] = b.size() >> 8; b[6] = b[7] = 0; }
                else { Wr w; w.u32(0).str("policy").null().null().u32(1).u32(2).u8(0x3f).u32(7); b = frame("OPN", w.b); }
                s.pieces(conn, b, whole);
                vh::count("bad_messages");
            }
            else if (what < 90) { c.lost = true; if (g.chance(50)) s.w.peerReset(conn); else s.w.peerClose(conn); }
            else if (what < 93) { unsigned l = c.lives; s.w.advance(10 * SEC + 1); CHK("U11", !c.active || c.lives != l, "timeout-unreported", "silent connection is not reported"); }
            else if (what < 96) c.userClose();
            else { c.outs.clear(); size_t n = conn->fromSut.size(); c.ch->send(sdu(rnd(g, 5))); CHK("U11", conn->fromSut.size() == n, "sent-unexpected", "something is sent before the channel is open"); vh::count("idle_sends"); }
            c.quiet();
            continue;
        }
        if (!c.open) { c.quiet(); if (!c.active) continue; if (!c.open) break; }
        if (what < 45)
        {
            for (unsigned f = 1 + g.below(5); f; --f) { Bytes p = rnd(g, g.chance(15) ? g.range(900, 3900) : g.chance(3) ? 4072 - g.below(3) : g.below(200)); if (p.size() == 4072) vh::count("biggest_frames"); ++c.seq; cat(b, c.sec("MSG", c.id, c.token, c.seq, p)); c.msgs.push_back(p); c.rids.push_back(c.rid); }
            s.pieces(conn, b, whole);
        }
        else if (what < 55) { ++c.seq; b = c.opn(c.id, c.seq, 1, true); if (g.chance(8)) c.faultySend(1); s.pieces(conn, b, whole); vh::count("renewals"); }
        else if (what < 75)
        {
            unsigned pre = g.below(3);
            for (unsigned f = 0; f < pre; ++f) { Bytes p = rnd(g, g.below(80)); ++c.seq; cat(b, c.sec("MSG", c.id, c.token, c.seq, p)); c.msgs.push_back(p); c.rids.push_back(c.rid); }
            unsigned kind = g.below(12);
            uint32_t nx = c.seq + 1;
            Bytes p = rnd(g, g.below(60));
            c.poisoned = true;
            switch (kind)
            {
            case 0: cat(b, c.sec("MSG", c.id, c.token + g.pick<uint32_t>({1, 0xffffffff, 0x10000, 0x80000000}), nx, p)); break;
            case 1: cat(b, c.sec("MSG", c.id, c.token, c.seq, p)); break;
            case 2: cat(b, c.sec("MSG", c.id, c.token, nx + g.pick<uint32_t>({1, 2, 256, 65536, 0x01000000}), p)); break;
            case 3: cat(b, c.sec("MSG", c.id + g.pick<uint32_t>({1, 0xffffffff, 0x10000}), c.token, nx, p)); break;
            case 4: cat(b, c.sec("MSG", 0, c.token, nx, p)); break;
            case 5: cat(b, c.sec("CLO", c.id, c.token + 1, nx, p)); break;
            case 6: cat(b, c.sec("CLO", c.id, c.token, g.chance(50) ? c.seq : nx + 1, p)); break;
            case 7: cat(b, c.sec("CLO", c.id + 1, c.token, nx, p)); break;
            case 8: cat(b, c.opn(c.id, g.chance(50) ? c.seq : nx + 1, 1, false)); break;
            case 9: cat(b, c.opn(c.id + 1, nx, 1, false)); break;
            case 10: if (g.chance(50)) { Bytes x = g.chance(30) ? c.opn(c.id, nx, 1, false) : c.sec(g.chance(50) ? "MSG" : "CLO", c.id, c.token, nx, p); x[g.below(3)] ^= 1 << g.below(8); cat(b, x); break; }
                { std::string t = g.pick<char const*>({"HEL", "ACK", "ERR", "XXX", "msg"}); cat(b, frame(t.c_str(), rnd(g, g.below(30)))); break; }
            default: { Bytes x = c.sec(g.pick<char const*>({"MSG", "CLO", "OPN"}), c.id, c.token, nx, {}); size_t n = g.range(8, 19); x.resize(n); x[4] = n; cat(b, x); }
            }
            s.mix(kind + 1000);
            if (g.chance(40)) cat(b, c.sec("MSG", c.id, c.token, nx, p));
            s.pieces(conn, b, whole);
            vh::count("bad_messages");
        }
        else if (what < 80) { for (unsigned f = g.below(3); f; --f) { Bytes p = rnd(g, g.below(80)); ++c.seq; cat(b, c.sec("MSG", c.id, c.token, c.seq, p)); c.msgs.push_back(p); c.rids.push_back(c.rid); } ++c.seq; c.wantClosed = true; cat(b, c.sec("CLO", c.id, c.token, c.seq, rnd(g, g.below(30)))); s.pieces(conn, b, whole); vh::count("close_requests"); }
        else if (what < 84) { c.lost = true; if (g.chance(50)) s.w.peerReset(conn); else s.w.peerClose(conn); }
        else if (what < 88) { if (c.active) c.reply(0, true); }
        else if (what < 90)
        {
            // does not fit
            size_t n = conn->fromSut.size(); bool thrown = false;
            ua::OpcUaSduBuffer big; while (big.capacity()) big.write(7);
            try { c.ch->send(big); } catch (std::exception const&) { thrown = true; }
            CHK("U11", thrown && conn->fromSut.size() == n, "oversize", "a message that does not fit was %s", thrown ? "sent" : "accepted");
            vh::count("oversize_sends");
        }
        else if (what < 93) { c.lost = true; bool armed = true; s.w.failSend = [&]{ bool r = armed; armed = false; return r; }; unsigned l = c.lives; c.ch->send(sdu(rnd(g, 20))); s.w.failSend = {}; s.w.settle(); if (c.lives == l) CHK("U11", !c.active, "failure-unreported", "a failed send is not reported"); vh::count("fault_send"); }
        else if (what < 96) { unsigned l = c.lives; s.w.advance(10 * SEC + 1); CHK("U11", !c.active || c.lives != l, "timeout-unreported", "silent connection is not reported"); }
        else if (what < 98) c.userClose();
        else s.w.advance(g.below(900) * MS);
        c.quiet();
    }
    c.quiet();
    c.againPct = 0;
    s.w.advance(30 * SEC);
    CHK("U11", !c.active && s.r.liveLinks == 0 && s.r.liveTimers == 0, "held", "active %d, %u links and %u timers held after 30 s of silence", c.active, s.r.liveLinks, s.r.liveTimers);
    s.done();
}
unsigned longRun() { vh::count("endurance_runs"); return RUNNING_ON_VALGRIND ? 200 : 20000; }
void u10() { vh::suite("connection", 12000, 300000, [](Rng& g, uint64_t) { libraryFor(g, 10 + g.below(50)); }); vh::suite("endurance", 8, 64, [](Rng& g, uint64_t) { libraryFor(g, longRun()); }); }
void u11() { vh::suite("channel", 12000, 300000, [](Rng& g, uint64_t) { secureFor(g, 10 + g.below(50)); }); vh::suite("endurance", 8, 64, [](Rng& g, uint64_t) { secureFor(g, longRun()); }); }
} // namespace

int main(int argc, char** argv) { return vh::mainImpl(argc, argv, {{"U10", u10}, {"U11", u11}}); }

// OPC UA server (transport + secure channels + services). Properties U04..U09.
#include "uaworld.hpp"
#include <time.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

#include "vclock.hpp"
using namespace uw;

namespace
{
struct Run : Sys
{
    explicit Run(Rng& g) : Sys(g) { worldNow = &w.now; }
    ~Run() { worldNow = nullptr; }
    // clients that came and went before: connections, channels and sessions are used again
    void up(unsigned maxLeft = 4)
    {
        Sys::up();
        if (!rng.chance(25)) return;
        vh::count("warm_ups");
        unsigned n = rng.chance(50) ? 30 + rng.below(40) : 1 + rng.below(30);
        for (unsigned i = 0; i < n; ++i)
        {
            auto& c = add();
            if (!c.connect()) throw vh::StopCase();
            unsigned depth = rng.below(8);
            bool cut = false; // in the middle of a frame
            auto part = [&](bool all = false) { size_t k = all ? c.out.size() : rng.below(c.out.size() + 1); if (k != c.out.size()) cut = true; Bytes b(c.out.begin(), c.out.begin() + k); c.out.clear(); c.transmit(b); w.settle(); };
            if (depth == 0) { c.helloSent = true; c.put(c.helloFrame()); part(); }
            else
            {
                c.hello(); part(true);
                if (depth == 1) { c.openChannel(); c.exp.back().optional = true; part(); }
                else
                {
                    c.openChannel(); part(true);
                    if (!c.open) { CHK("U04U05U06U07U08U09", false, "handshake", "client %u: no channel", c.id); throw vh::StopCase(); }
                    if (depth == 2) { c.request(sEndpoints, 2); c.fwd.back().optional = true; part(); }
                    if (depth == 3) { c.renew(); c.exp.back().optional = true; part(rng.chance(50)); }
                    if (depth >= 4)
                    {
                        c.request(sCreate, 1); c.sync(); c.settled("U04U05U06U07U08U09");
                        uint32_t t = c.lastSession;
                        if (depth >= 5) { c.request(sActivate, 1, t); c.sync(); c.settled("U04U05U06U07U08U09"); }
                        if (depth >= 6) { c.request(sRead, 1, t); c.sync(); c.settled("U04U05U06U07U08U09"); }
                        if (abandoned.size() < maxLeft && rng.chance(30)) abandoned.insert(t);
                        else { c.request(sClose, 1, t); c.sync(); c.settled("U04U05U06U07U08U09"); sessionOwner.erase(t); }
                        if (rng.chance(30)) { c.request(sEndpoints, 2); c.fwd.back().optional = true; part(); }
                    }
                }
            }
            for (auto& e : c.exp) e.optional = true;
            for (auto& e : c.fwd) e.optional = true;
            unsigned how = cut ? rng.below(2) * 3 : rng.below(4);
            if (how == 0) c.leave(true);
            else if (how == 1 && depth >= 3) { c.closeChannel(); c.flush(); }
            else if (how == 2 && depth >= 2) { c.bad = true; c.put(Client::frame("XYZ", {})); c.flush(); }
            else c.leave();
            if (rng.chance(90)) w.settle(); else w.steps(rng.below(6));
        }
        w.settle();
        for (auto& c : clients) { c->exp.clear(); c->fwd.clear(); c->gone = true; past.push_back(std::move(c)); }
        clients.clear();
        vh::count("past_clients", n);
    }
    void done(char const* kind = "histories") { vh::distinct(kind, vh::hashMix(hist, w.orderHash)); vh::count("events", w.events); vh::maxi("max_connections", clients.size()); }
    void settledAll(char const* props = "U04U05U07U09") { for (auto& c : clients) if (c->modelled) c->settled(props); }
};

// an id that is not the client's own
uint32_t nobodys(Rng& g, uint32_t own, std::vector<uint32_t> const& from) { while (true) { uint32_t r = from[g.below(from.size())]; if (r != own) return r; } }

std::string rndType(Rng& g)
{
    while (true)
    {
        std::string t;
        if (g.chance(60)) t = g.pick<char const*>({"HEL", "ACK", "ERR", "RHE", "msg", "MSH", "OPM", "CLN", "GET", "\0\0\0", "opn", "XXX"});
        else for (int i = 0; i < 3; ++i) t += (char)g.next();
        t.resize(3);
        if (t != "MSG" && t != "OPN" && t != "CLO") return t;
    }
}
// one letter away from a known type
std::string nearType(Rng& g, char const* of)
{
    std::string t = of;
    unsigned i = g.below(3);
    do t[i] = g.chance(50) ? (char)g.next() : (char)(of[i] ^ (1 << g.below(8))); while (t == of || t == "MSG" || t == "OPN" || t == "CLO" || t == "HEL");
    return t;
}
uint32_t impossibleSize(Rng& g, size_t real = 0)
{
    if (real && g.chance(40)) return (uint32_t)real | 1u << g.range(13, 31); // right but for one of the upper bits
    return g.chance(50) ? g.below(8) : g.pick<uint32_t>({4097, 5000, 8192, 65535, 65536, 65537, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8, 1u << 24});
}

// ---- U04: handshake and framing ----
void badFirst(Client& c, Rng& g)
{
    unsigned k = g.below(6);
    std::string why;
    c.bad = true;
    Bytes b;
    bool must = true;
    switch (k)
    {
    case 0: { std::string t = g.chance(50) ? g.pick<char const*>({"MSG", "OPN", "CLO", "ACK"}) : rndType(g); if (g.chance(30)) t = nearType(g, "HEL"); if (t == "HEL") t = "HEM"; Bytes h = c.helloFrame(); for (int i = 0; i < 3; ++i) h[i] = t[i]; b = h; why = "first frame is not a hello"; break; }
    case 1: { b = c.helloFrame(); uint32_t z = impossibleSize(g, b.size()); for (int i = 0; i < 4; ++i) b[4 + i] = z >> (8 * i); why = "hello of impossible length"; break; }
    case 2: { Wr w; w.u32(0).u32(1).u32(1).u32(1).u32(1).u32(g.pick<uint32_t>({1, 100, 4000, 0x7fffffff, 0x80000000, 0xfffffffe})); b = Client::frame("HEL", w.b); why = "hello with a string longer than the frame"; break; }
    case 3: { Bytes h = c.helloFrame(); size_t n = 8 + g.below(20); h.resize(n); h[4] = n; h[5] = h[6] = h[7] = 0; b = h; why = "hello cut short"; break; }
    case 4: { c.helloSent = true; c.opn(0, 1, 0); b.swap(c.out); why = "open request before hello"; c.helloSent = false; break; }
    default: { b = c.helloFrame(); b.resize(8 + g.below(b.size() - 8)); why = "incomplete hello"; must = false; break; }
    }
    if (g.chance(40) && must) { auto h = c.helloFrame(); b.insert(b.end(), h.begin(), h.end()); } // what follows must not be taken
    c.helloSent = false; // any acknowledge is wrong
    c.put(b);
    c.flush(g.chance(40));
    c.s.w.settle();
    vh::count("bad_first");
    CHK("U04", c.acks == 0 && c.c->fromSut.empty(), "ack-undeserved", "client %u: %zu bytes sent in answer to: %s", c.id, c.c->fromSut.size(), why.c_str());
    if (must) c.mustBeClosed("U04", why.c_str());
}
void badFrame(Client& c, Rng& g, std::string& why)
{
    unsigned k = g.below(4);
    switch (k)
    {
    case 0:
        why = "unknown frame type";
        if (g.chance(50))
        {
            // otherwise a valid frame of the type it resembles
            char const* of = g.pick<char const*>({"MSG", "OPN", "CLO"});
            auto t = nearType(g, of);
            size_t const at = c.out.size();
            if (of[0] == 'O') c.opn(c.chan, c.seq + 1, 1);
            else { ++c.rid; ++c.handle; c.put(c.secured(of, c.chan, c.token, c.seq + 1, c.rid, c.body(of[0] == 'C' ? sCloseCh : sEndpoints, c.handle))); }
            for (int i = 0; i < 3; ++i) c.out[at + i] = t[i];
            ++c.seq;
            vh::count("near_types");
            break;
        }
        { auto t = rndType(g); ++c.seq; ++c.rid; c.put(c.secured(t.c_str(), c.chan, c.token, c.seq, c.rid, c.body(sEndpoints, 1))); why = "unknown frame type"; break; }
    case 1: { ++c.seq; ++c.rid; auto f = c.secured(g.pick<char const*>({"MSG", "OPN", "CLO"}), c.chan, c.token, c.seq, c.rid, c.body(sEndpoints, 1)); uint32_t z = impossibleSize(g, f.size()); for (int i = 0; i < 4; ++i) f[4 + i] = z >> (8 * i); c.put(f); why = "frame of impossible length"; break; }
    case 2: { Bytes f = c.secured(g.pick<char const*>({"MSG", "OPN", "CLO"}), c.chan, c.token, c.seq + 1, c.rid + 1, {}); unsigned n = g.range(8, 11); f.resize(n); f[4] = n; c.put(f); why = "frame without a channel id"; break; }
    default: { c.put(c.helloFrame()); why = "second hello"; break; }
    }
}
void framing(Rng& g, uint64_t)
{
    Run s(g);
    s.up();
    unsigned n = 1 + g.below(4);
    for (unsigned i = 0; i < n; ++i)
    {
        auto& c = s.add();
        if (!c.connect()) { CHK("U04", false, "not-listening", "nobody listens"); return; }
        if (g.chance(25)) { badFirst(c, g); continue; }
        // hello, perhaps with the open request right behind it
        if (g.chance(6))
        {
            // as long as a frame can be
            unsigned const z = g.chance(60) ? 4096 : g.range(4000, 4096);
            Wr w; w.u32(0).u32(65536).u32(65536).u32((uint32_t)g.next()).u32(g.below(6000)).str(std::string(z - 32, 'u'));
            c.helloSent = true;
            c.put(Client::frame("HEL", w.b));
            vh::count("long_hellos");
        }
        else c.hello();
        size_t const helloLen = c.out.size();
        if (g.chance(30))
        {
            size_t cut = 1 + g.below(helloLen - 1);
            Bytes head(c.out.begin(), c.out.begin() + cut);
            c.out.erase(c.out.begin(), c.out.begin() + cut);
            c.transmit(head);
            s.w.settle();
            if (g.chance(30)) s.wait(g.below(29) * SEC);
            CHK("U04", c.acks == 0 && !c.closed(), "partial-hello", "client %u: %zu of %zu bytes of the hello: %s", c.id, cut, helloLen, c.closed() ? "closed" : "acknowledged");
            if (c.closed()) throw vh::StopCase();
        }
        bool joined = g.chance(50);
        if (!joined) { c.flush(g.chance(50)); s.w.settle(); }
        c.openChannel();
        c.flush(g.chance(50));
        s.w.settle();
        CHK("U04", c.acks == 1, "ack-missing", "client %u: %u acknowledges to a complete hello%s%s", c.id, c.acks, joined ? " joined with the next frame" : "", c.closed() ? " (closed)" : "");
        if (!c.ack || !c.open) { CHK("U04", false, "frame-not-acted-on", "client %u: open request %s the hello was not answered%s", c.id, joined ? "joined with" : "after", c.closed() ? " (closed)" : ""); throw vh::StopCase(); }
    }
    unsigned rounds = 1 + g.below(5);
    for (unsigned r = 0; r < rounds; ++r)
    {
        for (auto& cp : s.clients)
        {
            auto& c = *cp;
            if (c.closed() || c.bad) continue;
            unsigned k = g.below(6);
            for (unsigned i = 0; i < k; ++i)
            {
                unsigned what = g.below(10);
                if (what < 5) c.request(sEndpoints, 1, 0, g.chance(30) ? 1 + g.below(g.chance(20) ? 3850 : 600) : 0);
                else if (what < 7) c.request(sEndpoints, 1);
                else if (what < 8) c.request(sEndpoints, 1, g.next());
                else { ++c.handle; c.msg(0, c.body(g.range(700, 60000), c.handle), 0); }
                vh::count("frames_sent");
            }
            if (g.chance(12))
            {
                std::string why;
                badFrame(c, g, why);
                c.bad = true;
                unsigned after = g.below(3);
                // valid-looking frames behind it: not to be acted on
                for (unsigned i = 0; i < after; ++i) { ++c.seq; ++c.rid; c.put(c.secured("MSG", c.chan, c.token, c.seq, c.rid, c.body(sEndpoints, 77))); }
                for (auto& e : c.exp) e.optional = true; // the answers may be lost with the connection
                c.flush(g.chance(40));
                s.w.settle();
                vh::count("bad_frames");
                c.mustBeClosed("U04", why.c_str());
                CHK("U04", c.fwd.empty(), "not-forwarded", "client %u: %zu complete frames in front of a bad one were not acted on", c.id, c.fwd.size());
                c.fwd.clear();
                continue;
            }
            c.flush(g.chance(25));
        }
        s.w.settle();
        for (auto& cp : s.clients) if (!cp->bad) { cp->mustBeOpen("U04", "only valid frames were sent"); cp->settled("U04"); }
        if (g.chance(20)) s.wait(g.below(20) * SEC);
    }
    s.done();
}

// ---- U05: secure channels ----
void channels(Rng& g, uint64_t)
{
    Run s(g);
    s.up();
    auto fresh = [&]() -> Client& { auto& c = s.add(); c.start(g.chance(30)); return c; };
    unsigned n = 2 + g.below(4);
    for (unsigned i = 0; i < n; ++i) fresh();
    unsigned rounds = 4 + g.below(25);
    std::vector<std::tuple<uint32_t, uint32_t, uint32_t>> dead; // channels that ended: id, token, next number
    for (unsigned r = 0; r < rounds; ++r)
    {
        std::vector<Client*> live;
        for (auto& c : s.clients) if (!c->closed() && !c->bad && !c->gone && c->open) live.push_back(c.get());
        if (live.size() < 2) { if (s.clients.size() > 24) break; fresh(); continue; }
        Client& c = *live[g.below(live.size())];
        Client& v = *[&]{ Client* p; do p = live[g.below(live.size())]; while (p == &c); return p; }();
        unsigned act = g.below(22);
        if (act >= 7 && g.chance(60)) { for (auto* x : live) x->flush(); s.w.settle(); if (c.closed() || v.closed()) break; }
        s.mix(act);
        std::string bad;
        auto const plain = [&](uint32_t ch, uint32_t tok, uint32_t sq, char const* type = "MSG") { ++c.handle; ++c.rid; c.put(c.secured(type, ch, tok, sq, c.rid, c.body(type[0] == 'C' ? sCloseCh : g.pick<unsigned>({sEndpoints, sCreate, sRead}), c.handle))); };
        switch (act)
        {
        case 0: case 1: case 2: { for (unsigned k = 1 + g.below(4); k; --k) c.request(g.chance(70) ? sEndpoints : sRead, 0 ? 0 : 2); break; }
        case 3: case 4: { for (unsigned k = 1 + g.below(3); k; --k) c.request(sEndpoints, 1); break; }
        case 5: case 6:
            c.renew();
            c.sync();
            CHK("U05", !c.owed('O') && !c.closed(), "renew-refused", "client %u: renewing channel %u failed%s", c.id, c.chan, c.closed() ? " (closed)" : "");
            if (c.owed('O') || c.closed()) throw vh::StopCase();
            if (g.chance(60)) c.request(sEndpoints, 1);
            break;
        case 7:
        {
            dead.emplace_back(c.chan, c.token, c.seq + 2);
            if (g.chance(40)) c.request(sEndpoints, 2);
            c.closeChannel();
            unsigned after = g.below(3);
            for (unsigned i = 0; i < after; ++i) { ++c.handle; c.put(c.secured("MSG", c.chan, c.token, c.seq + 1 + i, ++c.rid, c.body(sEndpoints, c.handle))); }
            uint64_t fw = s.forwarded; size_t owed = 0; for (auto& x : s.clients) if (!x->closed()) owed += x->fwd.size();
            c.sync();
            CHK("U05", c.closed(), "not-closed:close", "client %u: connection open after the channel was closed", c.id);
            CHK("U05", s.forwarded - fw <= owed, "forward-after-close", "client %u: a message behind the close request was passed on", c.id);
            if (after == 0) CHK("U05", !c.owed('C'), "close-unanswered", "client %u: close request was not answered", c.id);
            c.closing = true;
            break;
        }
        case 8: bad = "wrong token"; plain(c.chan, g.pick<uint32_t>({c.token + 1, c.token - 1, 0, v.token, c.token ^ 0x80000000, c.token ^ 0x10000, (uint32_t)g.next()}), c.seq + 1); break;
        case 9: bad = "repeated sequence number"; plain(c.chan, c.token, c.seq); break;
        case 10: bad = "skipped sequence number"; plain(c.chan, c.token, c.seq + g.pick<uint32_t>({2, 3, 100, 257, 65537, 0x01000001})); break;
        case 11: bad = "old sequence number"; plain(c.chan, c.token, c.seq - g.pick<uint32_t>({1, 2, 255, 256, 65535})); break;
        case 12: bad = "channel of another connection"; plain(v.chan, g.chance(70) ? v.token : c.token, g.chance(70) ? v.seq + 1 : c.seq + 1); break;
        case 13: bad = "no such channel"; plain(nobodys(g, c.chan, {0, 33, 34, 1000, 0xffffffff, c.chan + 32, c.chan | 0x100, c.chan | 0x80000000}), c.token, c.seq + 1); break;
        case 14:
        {
            // old token after a renewal
            uint32_t old = c.token;
            c.renew(); c.sync();
            if (c.closed() || c.owed('O')) { CHK("U05", false, "renew-refused", "client %u: renewing channel %u failed", c.id, c.chan); throw vh::StopCase(); }
            bad = "token from before the renewal"; plain(c.chan, old, c.seq + 1);
            break;
        }
        case 15: bad = "close with the wrong token"; plain(c.chan, c.token + 1 + g.below(5), c.seq + 1, "CLO"); break;
        case 16: bad = "close with the wrong sequence number"; plain(c.chan, c.token, c.seq + g.pick<uint32_t>({0, 2, 5}), "CLO"); break;
        case 17: bad = "close of another connection's channel"; plain(v.chan, v.token, v.seq + 1, "CLO"); break;
        case 18: bad = "renewal of another connection's channel"; c.opn(v.chan, g.chance(50) ? v.seq + 1 : c.seq + 1, 1); break;
        case 19: bad = "renewal with the wrong sequence number"; c.opn(c.chan, c.seq + g.pick<uint32_t>({0, 2, 7, 0xffffffff}), 1); break;
        case 20: if (g.chance(50)) { bad = "second open on one connection"; c.opn(0, c.seq + 1, 0); } else { bad = "renewal of a channel that does not exist"; c.opn(nobodys(g, c.chan, {33, 77, 0xffffffff, c.chan + 32}), c.seq + 1, 1); } break;
        default:
        {
            // a newcomer uses a foreign or a dead channel without opening one
            auto& a = s.add();
            if (!a.connect()) break;
            a.hello(); a.sync();
            uint32_t ch = v.chan, tk = v.token, sq = v.seq + 1;
            bool ofDead = !dead.empty() && g.chance(50);
            if (ofDead) std::tie(ch, tk, sq) = dead[g.below(dead.size())];
            uint64_t fw = s.forwarded;
            for (auto& x : s.clients) if (!x->closed()) fw += x->fwd.size();
            unsigned how = g.below(3);
            a.bad = true;
            if (how == 0) a.put(a.secured("MSG", ch, tk, sq, 5, a.body(sEndpoints, 6)));
            else if (how == 1) a.put(a.secured("CLO", ch, tk, sq, 5, a.body(sCloseCh, 6)));
            else a.opn(ch, sq, 1);
            a.sync();
            vh::count("bad_messages");
            CHK("U05", a.closed(), "not-closed:newcomer", "client %u: connection open after using channel %u it did not open", a.id, ch);
            CHK("U05", s.forwarded <= fw && a.answered == 0, "newcomer-served", "client %u: %s on a channel it did not open was taken", a.id, how == 0 ? "message" : how == 1 ? "close" : "renewal");
            v.request(sEndpoints, 1);
            v.sync();
            v.mustBeOpen("U05", "somebody else used its channel");
            v.settled("U05");
            break;
        }
        }
        if (!bad.empty())
        {
            c.bad = true;
            unsigned after = g.below(3);
            for (unsigned i = 0; i < after; ++i) c.put(c.secured("MSG", c.chan, c.token, c.seq + 1 + i, ++c.rid, c.body(sEndpoints, c.handle)));
            uint64_t fw = s.forwarded, an = s.answers;
            for (auto& x : s.clients) { if (x->closed()) continue; fw += x->fwd.size(); an += x->exp.size(); } // still under way
            dead.emplace_back(c.chan, c.token, c.seq + 1);
            c.sync();
            vh::count("bad_messages");
            s.mix(vh::hashStr(bad));
            c.mustBeClosed("U05", bad.c_str());
            CHK("U05", s.forwarded <= fw, vh::fmt("forwarded:%s", bad.c_str()), "client %u: %s: a message was passed on", c.id, bad.c_str());
            CHK("U05", s.answers <= an, vh::fmt("answered:%s", bad.c_str()), "client %u: %s: it was answered", c.id, bad.c_str());
            if (!c.closed()) throw vh::StopCase();
            v.request(sEndpoints, 1);
            v.sync();
            v.mustBeOpen("U05", bad.c_str());
            v.settled("U05");
        }
        else if (!c.out.empty()) { c.flush(g.chance(40)); if (g.chance(70)) s.w.settle(); }
        if (g.chance(25)) s.w.settle();
        if (s.clients.size() > 26) break;
    }
    s.w.settle();
    for (auto& c : s.clients) if (!c->bad && !c->closing) { c->mustBeOpen("U05", "only valid messages were sent"); c->settled("U05"); }
    s.done();
}

// sequence numbers wrap around like any 32 bit counter
void longChannel(Rng& g, uint64_t)
{
    Run s(g);
    s.up();
    auto& c = s.add();
    c.seq = 0xffffffff - g.below(6);
    c.start();
    unsigned n = 20 + g.below(120);
    for (unsigned i = 0; i < n; ++i)
    {
        if (g.chance(10)) { c.renew(); c.sync(); if (c.owed('O') || c.closed()) { CHK("U05", false, "renew-refused", "renewal %u failed", i); throw vh::StopCase(); } }
        else c.request(sEndpoints, 1);
        if (g.chance(30)) { c.sync(); c.settled("U05U07"); }
        if (c.exp.size() > 30) c.sync();
    }
    c.sync();
    c.mustBeOpen("U05U07", "only valid messages were sent");
    c.settled("U05U07");
    vh::count("long_channels");
    s.done();
}

// ---- U06: sessions ----
struct Sess { Client* belongs; bool activated = false; Client* on = nullptr; bool open = true; };
void sessions(Rng& g, uint64_t)
{
    Run s(g);
    s.up();
    std::map<uint32_t, Sess> model;     // every session ever, by token; latest incarnation
    std::map<Client*, uint32_t> latest; // most recent session activated on the channel
    auto fresh = [&]() -> Client& { auto& c = s.add(); c.start(); return c; };
    unsigned n = 2 + g.below(3);
    for (unsigned i = 0; i < n; ++i) fresh();
    unsigned rounds = 10 + g.below(50);
    unsigned created = 0;
    for (unsigned r = 0; r < rounds; ++r)
    {
        std::vector<Client*> live;
        for (auto& c : s.clients) if (!c->closed() && !c->bad && !c->gone && c->open) live.push_back(c.get());
        if (live.size() < 2) { if (s.clients.size() > 28) break; fresh(); continue; }
        Client& c = *live[g.below(live.size())];
        unsigned act = g.below(20);
        s.mix(act * 3 + c.id);
        auto anyToken = [&]() -> uint32_t
        {
            std::vector<uint32_t> t; for (auto& m : model) t.push_back(m.first);
            return t.empty() ? 1 + g.below(32) : g.pick(t);
        };
        auto ownToken = [&]() -> uint32_t
        {
            std::vector<uint32_t> t; for (auto& m : model) if (m.second.open && m.second.belongs == &c) t.push_back(m.first);
            return t.empty() ? anyToken() : g.pick(t);
        };
        // sessions of clients of the past, and the recorded defect: sessions whose channel has ended and whose channel id this client got
        auto notJudged = [&](uint32_t t)
        {
            if (s.abandoned.count(t)) return true;
            auto it = model.find(t);
            return it != model.end() && it->second.open && it->second.belongs != &c && it->second.belongs->chan == c.chan;
        };
        // does this request have an answer? 1 yes, 0 no
        size_t before = c.got.size();
        auto run = [&](unsigned svc, uint32_t auth, int want, char const* what, unsigned ns = 0)
        {
            c.request(svc, want ? 1 : 0, auth, 0, ns);
            if (!want) c.exp.clear();
            c.sync();
            c.mustBeOpen("U06U07", what);
            if (want && c.got.size() == before) { CHK("U06U07", false, vh::fmt("refused:%s", what), "client %u: %s (session %u) was not answered", c.id, what, auth); throw vh::StopCase(); }
            vh::count(want ? "allowed" : "denied");
            vh::distinct("situations", vh::hashStr(vh::fmt("%s %d", what, want)));
        };
        if (act < 4)
        {
            if (created + s.abandoned.size() >= 30) continue;
            run(sCreate, g.chance(50) ? 0 : anyToken(), 1, "create");
            ++created;
            uint32_t t = c.lastSession;
            CHK("U06", !model.count(t) || !model[t].open, "session-distinct", "client %u: token %u of an open session was given again", c.id, t);
            model[t] = Sess{&c};
        }
        else if (act < 8)
        {
            uint32_t t = g.chance(60) ? ownToken() : anyToken();
            unsigned ns = g.chance(8) ? 1 + g.below(300) : 0;
            if (g.chance(12)) t = g.pick<uint32_t>({0, 33, 64, 1000, 0x7fffffff, 0xffffffff, 0x80000001, t + 32, t | 0x10000});
            if (notJudged(t)) continue;
            auto it = model.find(t);
            bool exists = it != model.end() && it->second.open && !ns;
            // a session that was never activated only by its own channel; afterwards any channel that knows the token
            int want = exists && (it->second.activated || it->second.belongs == &c);
            if (exists && it->second.belongs != &c && !it->second.activated) vh::count("foreign_first_activations");
            if (want && it->second.activated && it->second.on != &c) vh::count("takeovers");
            run(sActivate, t, want, exists ? (it->second.activated ? "activate again" : it->second.belongs == &c ? "first activation" : "first activation by another channel") : "activate what does not exist", ns);
            if (want) { it->second.activated = true; it->second.on = &c; it->second.belongs = &c; latest[&c] = t; }
        }
        else if (act < 11)
        {
            uint32_t t = g.chance(60) ? ownToken() : anyToken();
            unsigned ns = g.chance(8) ? 1 + g.below(300) : 0;
            if (g.chance(12)) t = g.pick<uint32_t>({0, 33, 64, 1000, 0x7fffffff, 0xffffffff, t + 32, t | 0x10000});
            if (notJudged(t)) continue;
            auto it = model.find(t);
            bool exists = it != model.end() && it->second.open && !ns;
            int want = exists && it->second.belongs == &c;
            run(sClose, t, want, exists ? (want ? "close" : "close by another channel") : "close what does not exist", ns);
            if (want) { it->second.open = false; s.sessionOwner.erase(t); }
        }
        else if (act < 18)
        {
            bool must = latest.count(&c) && model[latest[&c]].open && model[latest[&c]].activated && model[latest[&c]].on == &c;
            bool may = false;
            for (auto& m : model) if (m.second.open && m.second.activated && m.second.on == &c) may = true;
            uint32_t t = g.chance(60) && latest.count(&c) ? latest[&c] : anyToken();
            if (may && !must) continue; // another session of this channel is still active: either way
            run(sRead, t, must, must ? "read" : !latest.count(&c) ? "read before activation" : model[latest[&c]].open ? "read after another channel took over" : "read after close");
        }
        else if (act < 19) { if (s.clients.size() < 28) fresh(); }
        else
        {
            // the client disappears; its sessions stay until somebody who knows the token takes them over
            unsigned how = g.below(3);
            if (how == 0) c.leave(); else if (how == 1) c.leave(true); else { c.closeChannel(); c.flush(); }
            s.w.settle();
            if (how == 2) c.gone = true;
            for (auto& m : model) if (m.second.open && m.second.on == &c) m.second.on = nullptr;
            vh::count("departures");
        }
    }
    s.w.settle();
    for (auto& c : s.clients) if (!c->bad && !c->gone) c->settled("U06U07");
    s.done();
}

// reads sent together with the activation, the close or a takeover: never answered too late
void sessionRaces(Rng& g, uint64_t)
{
    Run s(g);
    s.up();
    auto& a = s.add(); a.start();
    auto& b = s.add(); b.start();
    a.request(sCreate, 1); a.sync(); a.settled("U06U07");
    uint32_t t = a.lastSession;
    // activation and requests in one go: discovery must be answered, reads may
    if (g.chance(60)) a.request(sEndpoints, 1);
    a.request(sActivate, 1, t);
    for (unsigned k = g.below(4); k; --k) { if (g.chance(50)) a.request(sRead, 2, t); else a.request(sEndpoints, 1); }
    a.sync(); a.settled("U06U07");
    a.request(sRead, 1, t); a.sync(); a.settled("U06U07");
    unsigned kind = g.below(3);
    s.mix(kind);
    if (kind == 0)
    {
        // close and reads behind it: the close is acted on first
        for (unsigned k = g.below(3); k; --k) a.request(sRead, 1, t);
        a.request(sClose, 1, t);
        unsigned k = 1 + g.below(3);
        for (unsigned i = 0; i < k; ++i) { a.request(sRead, 0, t); }
        a.request(sEndpoints, 1);
        a.sync();
        a.settled("U06U07");
        vh::count("reads_behind_close");
    }
    else if (kind == 1)
    {
        // takeover: from the moment the new owner got its answer the old one gets none
        b.request(sActivate, 1, t);
        b.sync(); b.settled("U06U07");
        a.request(sRead, 0, t); a.request(sEndpoints, 1);
        b.request(sRead, 1, t);
        if (g.chance(50)) { a.flush(); b.flush(); } else { b.flush(); a.flush(); }
        s.w.settle();
        a.settled("U06U07"); b.settled("U06U07");
        // and back
        a.request(sActivate, 1, t); a.sync(); a.settled("U06U07");
        b.request(sRead, 0, t); b.request(sEndpoints, 1); b.sync(); b.settled("U06U07");
        a.request(sRead, 1, t); a.sync(); a.settled("U06U07");
        vh::count("takeovers");
    }
    else
    {
        // two clients race for the session: afterwards exactly one of them is served
        a.request(sActivate, 1, t); b.request(sActivate, 1, t);
        a.request(sRead, 2, t); b.request(sRead, 2, t);
        a.flush(); b.flush();
        s.w.settle();
        a.settled("U06U07"); b.settled("U06U07");
        unsigned na = a.answered, nb = b.answered;
        a.request(sRead, 2, t); b.request(sRead, 2, t);
        a.flush(); b.flush();
        s.w.settle();
        bool ra = a.answered != na, rb = b.answered != nb;
        CHK("U06", ra != rb, "race-owner", "after two activations of session %u reads are answered for %s", t, ra ? "both channels" : "none of the channels");
        vh::count("activation_races");
        a.settled("U06U07"); b.settled("U06U07");
    }
    s.done();
}

// ---- U07: answers ----
void answers(Rng& g, uint64_t)
{
    Run s(g);
    s.up();
    unsigned n = 1 + g.below(g.chance(20) ? 22 : 6);
    for (unsigned i = 0; i < n; ++i) s.add().start(g.chance(30));
    std::map<Client*, uint32_t> active;
    for (auto& c : s.clients)
        if (g.chance(60))
        {
            c->request(sCreate, 1); c->sync(); c->settled("U07");
            c->request(sActivate, 1, c->lastSession); c->sync(); c->settled("U07");
            active[c.get()] = c->lastSession;
        }
    unsigned rounds = 1 + g.below(6);
    for (unsigned r = 0; r < rounds; ++r)
    {
        unsigned inFlight = 0;
        for (unsigned k = 1 + g.below(3 * n); k && inFlight < 40; --k)
        {
            auto& c = *s.clients[g.below(n)];
            for (unsigned m = 1 + g.below(4); m; --m, ++inFlight)
            {
                unsigned what = g.below(10);
                bool act = active.count(&c);
                if (what < 4) c.request(sEndpoints, 1, g.below(40));
                else if (what < 8 && act) c.request(sRead, 1, active[&c]);
                else if (what == 8 && act) c.request(sActivate, 1, active[&c]);
                else c.request(sEndpoints, 1, 0, g.chance(20) ? g.below(3000) : 0);
            }
            c.flush(g.chance(50));
            if (g.chance(30)) s.w.steps(1 + g.below(10));
            if (g.chance(10)) s.wait(g.below(2000000));
        }
        s.w.settle();
        for (auto& c : s.clients) { c->mustBeOpen("U07", "only valid requests were sent"); c->settled("U07"); }
        if (g.chance(30)) s.wait(g.below(25) * SEC + g.below(SEC));
        if (g.chance(25))
        {
            // sessions come and go
            auto& c = *s.clients[g.below(n)];
            if (active.count(&c)) { c.request(sClose, 1, active[&c]); c.sync(); c.settled("U07"); s.sessionOwner.erase(active[&c]); active.erase(&c); }
            else if (g.chance(70)) { c.request(sCreate, 1); c.sync(); c.settled("U07"); c.request(sActivate, 1, c.lastSession); c.sync(); c.settled("U07"); active[&c] = c.lastSession; }
        }
    }
    s.done();
}

// ---- U08: conservation ----
// clients use up everything there is, and everything works
void fullHouse(Run& s, char const* why)
{
    Rng& g = s.rng;
    std::vector<Client*> all;
    unsigned const N = 32;
    for (unsigned i = 0; i < N; ++i)
    {
        auto& c = s.add();
        all.push_back(&c);
        if (!c.connect()) { CHK("U08", false, "not-listening", "nobody listens (%s)", why); throw vh::StopCase(); }
        c.hello();
        c.flush();
        if (g.chance(50)) s.w.settle();
    }
    s.w.settle();
    for (auto* c : all)
    {
        CHK("U08", c->ack && !c->closed(), "connection-lost", "%s: connection %u of %u is not served any more", why, (unsigned)(c - all[0]) ? c->id : c->id, N);
        if (!c->ack || c->closed()) throw vh::StopCase();
        c->openChannel();
        c->flush();
        if (g.chance(50)) s.w.settle();
    }
    s.w.settle();
    std::set<uint32_t> ids;
    for (auto* c : all)
    {
        CHK("U08", c->open && !c->closed(), "channel-lost", "%s: client %u of %u gets no channel any more", why, (unsigned)ids.size() + 1, N);
        if (!c->open) throw vh::StopCase();
        CHK("U08", ids.insert(c->chan).second, "channel-twice", "%s: channel %u was given twice", why, c->chan);
        c->request(sEndpoints, 1);
        c->flush();
    }
    s.w.settle();
    for (auto* c : all) c->settled("U08");
    // one more: refused while the house is full, served when somebody left
    if (g.chance(50))
    {
        auto& x = s.add();
        x.connect(); x.hello(); x.flush(); s.w.settle();
        CHK("U08", !x.ack, "more-than-full", "%s: client %u is served although all connections are in use", why, N + 1);
        auto& y = *all[g.below(N)];
        y.leave(g.chance(50));
        s.w.settle();
        if (x.closed()) { x.gone = true; auto& z = s.add(); z.start(); z.request(sEndpoints, 1); z.sync(); z.settled("U08"); z.leave(); }
        else
        {
            s.w.advance(MS);
            CHK("U08", x.ack, "waiting-client", "%s: waiting client is not served when a connection becomes free", why);
        }
        x.leave();
        s.w.settle();
    }
    for (auto* c : all) { if (c->gone) continue; if (g.chance(30)) { c->closeChannel(); c->flush(); } else c->leave(g.chance(30)); if (g.chance(50)) s.w.settle(); }
    s.w.settle();
    vh::count("full_houses");
}
void nothingLeft(Run& s, char const* why, bool listening = true)
{
    CHK("U08", s.r0.liveTimers + s.r1.liveTimers + s.r2.liveTimers == 0, "timer-left", "%s: %u timers left", why, s.r0.liveTimers + s.r1.liveTimers + s.r2.liveTimers);
    CHK("U08", s.r0.liveLinks + s.r1.liveLinks + s.r2.liveLinks == 0, "link-left", "%s: %u links left", why, s.r0.liveLinks + s.r1.liveLinks + s.r2.liveLinks);
    unsigned acc = s.r0.liveAcceptors + s.r1.liveAcceptors + s.r2.liveAcceptors;
    CHK("U08", acc == (listening ? 1u : 0u), "listener-left", "%s: %u listeners", why, acc);
}
void ending(Run& s, Client& c, unsigned how)
{
    Rng& g = s.rng;
    char const* names[] = {"disconnect", "reset", "close request", "protocol error", "malformed message", "bad channel use", "silence", "disconnect with requests pending", "reset with requests pending", "malformed open", "send failure"};
    s.mix(how * 17);
    vh::count(vh::fmt("end_%u", how));
    vh::distinct("endings", vh::hashStr(vh::fmt("%s %d %d", names[how], c.ack, c.open)));
    bool opened = c.open && !c.closed();
    switch (how)
    {
    case 0: c.leave(); break;
    case 1: c.leave(true); break;
    case 2: if (opened) { c.closeChannel(); c.flush(); } else c.leave(); break;
    case 3: c.bad = true; c.put(Client::frame("BAD", Bytes(g.below(20), 1))); c.flush(); break;
    case 4:
        c.bad = true;
        if (opened) { Wr w; w.u32(c.chan); for (unsigned k = g.below(12); k; --k) w.u8(g.next()); c.put(Client::frame(g.chance(70) ? "MSG" : "CLO", w.b)); }
        else { Wr w; w.u32(0); c.put(Client::frame("HEL", w.b)); }
        c.flush(); break;
    case 5: c.bad = true; c.put(c.secured("MSG", c.chan + 1, c.token, c.seq + 1, 1, c.body(sEndpoints, 1))); c.flush(); break;
    case 6: break;
    case 7: case 8: if (opened) for (unsigned k = 1 + g.below(4); k; --k) c.request(g.pick<unsigned>({sEndpoints, sCreate, sRead}), 2); else if (c.ack) c.openChannel(); c.flush(); s.w.steps(g.below(8)); c.leave(how == 8); break;
    case 9:
    {
        c.bad = true;
        Wr w; w.u32(opened ? c.chan : 0);
        unsigned k = g.below(4);
        if (k == 0) w.raw(Bytes(g.below(30), 0xff));
        else { w.str("http://opcfoundation.org/UA/SecurityPolicy#None").null().null().u32(c.seq + 1).u32(9); if (k == 2) w.type(sOpen).u32(7); if (k == 3) w.u8(0x3f).u32(0); }
        c.put(Client::frame("OPN", w.b)); c.flush(); break;
    }
    default: break;
    }
}
void conserve(Rng& g, uint64_t)
{
    Run s(g);
    s.up();
    bool faults = g.chance(30);
    unsigned faultPct = faults ? 1 + g.below(25) : 0;
    bool injecting = true;
    if (faults)
    {
        auto f = [&, faultPct](char const* what) { return std::function<bool()>([&, what, faultPct] { bool r = injecting && g.chance(faultPct); if (r) vh::count(std::string("fault_") + what); return r; }); };
        s.w.failTimer = f("timer"); s.w.failSend = f("send"); s.w.failAccept = f("accept"); s.w.failLink = f("link");
    }
    unsigned waves = 1 + g.below(4);
    for (unsigned v = 0; v < waves; ++v)
    {
        unsigned n = 1 + g.below(g.chance(30) ? 40 : 14);
        std::vector<Client*> wave;
        for (unsigned i = 0; i < n; ++i)
        {
            auto& c = s.add();
            if (!c.connect()) break;
            wave.push_back(&c);
            unsigned depth = g.below(5); // how far it gets before it ends
            if (depth >= 1) { c.hello(); c.flush(g.chance(70)); if (g.chance(60)) s.w.settle(); else s.w.steps(g.below(10)); }
            if (depth >= 2) { c.openChannel(); c.flush(g.chance(70)); if (depth > 2 || g.chance(50)) s.w.settle(); else s.w.steps(g.below(10)); }
            if (c.open && depth >= 3) { c.request(sEndpoints, 2); if (g.chance(30)) c.renew(); c.flush(); s.w.settle(); }
            if (c.open && depth >= 4 && !c.closed() && s.sessionOwner.size() < 20)
            {
                for (auto& e : c.exp) e.optional = true;
                c.request(sCreate, 2); c.flush(); s.w.settle();
                if (c.lastSession && g.chance(60)) { c.request(sActivate, 2, c.lastSession); c.flush(); s.w.settle(); }
                if (c.lastSession && !c.closed()) { unsigned a = c.answered; c.request(sClose, 2, c.lastSession); c.flush(); s.w.settle(); if (c.answered != a) s.sessionOwner.erase(c.lastSession); }
            }
            for (auto& e : c.exp) e.optional = true;
            for (auto& e : c.fwd) e.optional = true;
            if (g.chance(50)) { ending(s, c, g.below(10)); if (g.chance(60)) s.w.settle(); c.gone = c.gone || c.bad; }
        }
        for (auto* c : wave) if (!c->closed() && !c->gone) { for (auto& e : c->exp) e.optional = true; ending(s, *c, g.below(10)); if (g.chance(40)) s.w.settle(); }
        s.w.settle();
        for (auto* c : wave) { for (auto& e : c->exp) e.optional = true; for (auto& e : c->fwd) e.optional = true; }
        bool silent = false;
        for (auto* c : wave) if (!c->closed()) silent = true;
        if (silent || g.chance(30)) s.w.advance(31 * SEC); // idle ones run into the timeout
        s.w.settle();
        // whoever could not be accepted because of an injected fault gets its chance now
        { bool const inj = injecting; injecting = false; bool left = false; s.w.settle(); for (auto* c : wave) if (!c->closed()) left = true; if (left) { s.w.advance(31 * SEC); s.w.settle(); } injecting = inj; }
        for (auto* c : wave) CHK("U08", c->closed(), "never-closed", "client %u, which ended or fell silent, is still connected after 31 s", c->id);
        for (auto* c : wave) { c->gone = true; c->exp.clear(); c->fwd.clear(); }
        nothingLeft(s, "all clients gone");
        bool was = injecting; injecting = false;
        if (v + 1 == waves || g.chance(30)) { fullHouse(s, "after a history"); nothingLeft(s, "after everybody left"); }
        injecting = was;
        if (g.chance(20))
        {
            injecting = false;
            // subsystem release in the middle of things, then a new start
            std::vector<Client*> mid;
            for (unsigned k = g.below(6); k; --k) { auto& c = s.add(); mid.push_back(&c); c.start(); if (g.chance(50)) { c.request(sCreate, 2); c.flush(); if (g.chance(50)) s.w.settle(); } }
            s.relRsp = 0;
            for (auto* c : mid) { for (auto& e : c->exp) e.optional = true; for (auto& e : c->fwd) e.optional = true; }
            s.release();
            s.w.settle();
            CHK("U08", s.relRsp == 3, "release-unanswered", "%u of 3 release requests answered", s.relRsp);
            for (auto* c : mid) { CHK("U08", c->closed(), "release-keeps", "client %u still connected after release", c->id); c->gone = true; c->exp.clear(); c->fwd.clear(); }
            nothingLeft(s, "released", false);
            CHK("U08", !s.w.connectTo(s.addr), "release-listens", "still listening after release");
            s.owner.clear(); s.sessionOwner.clear();
            s.initRsp = 0;
            s.up();
            CHK("U08", s.initRsp == 3, "init-unanswered", "%u of 3 init requests answered", s.initRsp);
            vh::count("restarts");
            injecting = was;
        }
    }
    injecting = false;
    s.done();
}
// closed sessions come back: many more sessions than the pool holds
void sessionTurnover(Rng& g, uint64_t)
{
    Run s(g);
    s.up(0);
    unsigned n = 2 + g.below(3);
    for (unsigned i = 0; i < n; ++i) s.add().start();
    std::vector<std::pair<Client*, uint32_t>> open;
    unsigned total = 60 + g.below(90);
    for (unsigned i = 0; i < total; ++i)
    {
        bool more = open.size() < 32 && (open.empty() || g.chance(open.size() < 24 ? 60 : 50));
        if (more)
        {
            auto& c = *s.clients[g.below(n)];
            c.request(sCreate, 1); c.sync(); c.settled("U08");
            open.emplace_back(&c, c.lastSession);
        }
        else
        {
            size_t k = g.below(open.size());
            auto [c, t] = open[k];
            if (g.chance(50)) { c->request(sActivate, 1, t); c->sync(); c->settled("U08"); }
            c->request(sClose, 1, t); c->sync(); c->settled("U08");
            s.sessionOwner.erase(t);
            if (g.chance(30)) { c->request(sClose, 0, t); c->sync(); } // a second time: nothing happens
            open.erase(open.begin() + k);
        }
        vh::maxi("max_open_sessions", open.size());
    }
    // fill up
    while (open.size() < 32) { auto& c = *s.clients[g.below(n)]; c.request(sCreate, 1); c.sync(); c.settled("U08"); open.emplace_back(&c, c.lastSession); }
    { auto& c = *s.clients[0]; c.request(sCreate, 0); c.request(sEndpoints, 1); c.sync(); c.settled("U08"); }
    vh::count("session_turnovers");
    s.done();
}
// idle timeout: restarted by every message, and only then
void idle(Rng& g, uint64_t)
{
    Run s(g);
    s.up();
    auto& a = s.add(); a.start();                  // silent
    auto& b = s.add(); b.start();                  // active
    auto& h = s.add(); h.connect(); s.w.settle();  // never says hello
    auto& p = s.add(); p.connect(); p.hello(); p.out.resize(p.out.size() / 2); p.flush(); s.w.settle(); // half a hello
    p.helloSent = false;
    long last = s.w.now, t0 = s.w.now;
    for (int i = 0; i < 12; ++i)
    {
        long d = g.range(1, 29) * SEC;
        s.w.advance(d);
        b.request(sEndpoints, 1); b.sync();
        b.mustBeOpen("U08", "it was never idle for 30 s"); b.settled("U08");
        if (s.w.now - t0 < 29 * SEC) { CHK("U08", !a.closed() && !h.closed() && !p.closed(), "idle-early", "an idle connection was closed after %ld s", (s.w.now - t0) / SEC); }
        if (s.w.now - t0 > 31 * SEC) { CHK("U08", a.closed() && h.closed() && p.closed(), "idle-late", "an idle connection is open after %ld s", (s.w.now - t0) / SEC); }
        last = s.w.now;
    }
    (void)last;
    CHK("U08", a.closed() && h.closed() && p.closed(), "idle-never", "idle connections are never closed");
    b.leave();
    s.w.settle();
    nothingLeft(s, "idle ones timed out");
    vh::count("idle_timeouts");
    s.done();
}

// ---- U09: hostile clients ----
Bytes mutate(Rng& g, Bytes b)
{
    unsigned k = 1 + g.below(4);
    for (unsigned i = 0; i < k; ++i)
    {
        unsigned op = g.below(8);
        size_t p = b.empty() ? 0 : g.below(b.size());
        if (op == 0) b.insert(b.begin() + p, (uint8_t)g.next());
        else if (b.empty()) b.push_back((uint8_t)g.next());
        else if (op == 1) b.erase(b.begin() + p);
        else if (op == 2) b[p] ^= 1 << g.below(8);
        else if (op == 3) b[p] = g.pick({0, 1, 0x7f, 0x80, 0xff, 0x40, 0xc1});
        else if (op == 4) { for (unsigned j = 0; j < 4 && p + j < b.size(); ++j) b[p + j] = g.pick({0xff, 0x7f, 0, 0x80}); }
        else if (op == 5) b.resize(p);
        else if (op == 6) { size_t n = 1 + g.below(40); Bytes c(b.begin() + p, b.begin() + std::min(b.size(), p + n)); b.insert(b.begin() + g.below(b.size()), c.begin(), c.end()); }
        else b.insert(b.begin() + p, g.below(64), (uint8_t)g.pick({0, 0xff, 0x40, 0x41}));
    }
    if (b.size() > 6000) b.resize(6000);
    return b;
}
// presents the token of somebody else's session to the activate service?
bool stealsSession(Sys& s, Bytes const& payload, Client* self)
{
    Rd r(payload.data(), payload.data() + payload.size());
    unsigned mask; uint32_t ty = r.node(nullptr, &mask);
    if (mask & 0x80) r.str();
    if (mask & 0x40) r.u32();
    if (ty != sActivate) return false;
    uint32_t t = r.node();
    auto it = s.sessionOwner.find(t);
    return it != s.sessionOwner.end() && it->second != self;
}
void hostile(Rng& g, uint64_t)
{
    Run s(g);
    s.hostileAllowed = true;
    s.up();
    unsigned nv = 1 + g.below(3);
    std::vector<Client*> vic;
    std::map<Client*, uint32_t> ses;
    for (unsigned i = 0; i < nv; ++i)
    {
        auto& v = s.add(); v.start(); vic.push_back(&v);
        if (g.chance(70)) { v.request(sCreate, 1); v.sync(); v.settled("U09"); v.request(sActivate, 1, v.lastSession); v.sync(); v.settled("U09"); ses[&v] = v.lastSession; }
    }
    auto victims = [&](char const* after)
    {
        for (auto* v : vic)
        {
            unsigned k = 1 + g.below(2);
            for (unsigned i = 0; i < k; ++i) { if (ses.count(v) && g.chance(60)) v->request(sRead, 1, ses[v]); else v->request(sEndpoints, 1); }
            if (g.chance(50)) { v->flush(g.chance(50)); }
            else v->sync();
        }
        s.w.settle();
        for (auto* v : vic) { v->mustBeOpen("U09", after); v->settled("U09"); }
        vh::count("victim_rounds");
    };
    unsigned rounds = 2 + g.below(8);
    unsigned sent = 0;
    for (unsigned r = 0; r < rounds; ++r)
    {
        if (s.clients.size() > 26) break;
        auto& c = s.add();
        unsigned stage = g.below(4); // 0 raw, 1 after hello, 2 with channel, 3 with session
        if (!c.connect()) break;
        if (stage >= 1) { c.hello(); c.flush(); s.w.settle(); }
        if (stage >= 2) { c.openChannel(); c.flush(); s.w.settle(); if (!c.open) { CHK("U09", false, "handshake", "client %u: no channel", c.id); throw vh::StopCase(); } }
        if (stage >= 3 && s.sessionOwner.size() < 25)
        {
            c.request(sCreate, 1); c.sync(); c.settled("U09");
            if (g.chance(60)) { c.request(sActivate, 1, c.lastSession); c.sync(); c.settled("U09"); }
        }
        c.modelled = false; // from here on it misbehaves
        if (c.lastSession) s.closeAsked.insert(c.lastSession); // and may end its own session in any way
        uint32_t sq = c.seq;
        unsigned k = 1 + g.below(10);
        for (unsigned i = 0; i < k && !c.closed(); ++i)
        {
            Bytes b;
            unsigned what = g.below(10);
            Client& v = *vic[g.below(vic.size())];
            if (what < 3 && stage >= 2)
            {
                // proper envelope, hostile content: keeps the channel alive and reaches the services
                Bytes p = c.body(g.pick<unsigned>({sEndpoints, sCreate, sActivate, sClose, sRead, sRead, sOpen, sCloseCh, (unsigned)g.below(65536)}), (uint32_t)g.next(), g.chance(50) ? c.lastSession : g.pick<uint32_t>({0, 33, 0xffffffff, 1000}));
                for (int tries = 0; tries < 8; ++tries) { Bytes q = mutate(g, p); if (!stealsSession(s, q, &c)) { p = q; break; } p = c.body(sRead, 1); }
                if (p.size() > 4000) p.resize(4000);
                if (stealsSession(s, p, &c)) p = c.body(sRead, 1);
                b = c.secured("MSG", c.chan, c.token, ++sq, (uint32_t)g.next(), p);
            }
            else if (what == 3 && stage >= 2)
            {
                // close what belongs to others
                auto it = s.sessionOwner.begin(); if (!s.sessionOwner.empty()) std::advance(it, g.below(s.sessionOwner.size()));
                uint32_t t = s.sessionOwner.empty() ? 1 : it->first;
                Wr w; w.type(sClose); c.reqHdr(w, 5, t); w.u8(1);
                b = c.secured("MSG", c.chan, c.token, ++sq, (uint32_t)g.next(), w.b);
            }
            else if (what == 4) b = c.secured(g.pick<char const*>({"MSG", "CLO"}), v.chan, g.chance(80) ? v.token : 0, v.seq + 1, 3, c.body(g.chance(50) ? sCloseCh : sRead, 1));
            else if (what == 5) { c.out.clear(); c.opn(g.chance(50) ? v.chan : g.below(40), g.chance(50) ? v.seq + 1 : sq + 1, g.below(2)); b.swap(c.out); if (g.chance(50)) b = mutate(g, b); }
            else if (what == 6) { for (unsigned n = g.below(300); n; --n) b.push_back((uint8_t)g.next()); }
            else if (what == 7) { b = Client::frame(g.pick<char const*>({"MSG", "OPN", "CLO", "HEL"}), Bytes(g.below(40), (uint8_t)g.next()), g.chance(50) ? (int64_t)impossibleSize(g) : -1); }
            else if (what == 8) { unsigned n = g.range(3900, 4200); b = Client::frame(g.pick<char const*>({"MSG", "OPN", "CLO", "HEL"}), {}, n); Wr w; w.u32(stage >= 2 ? c.chan : 0).u32(c.token).u32(++sq).u32(1).type(sEndpoints); b.insert(b.end(), w.b.begin(), w.b.end()); while (b.size() < n) b.push_back(g.pick({0x40, 0xff, 0x00})); }
            else
            {
                c.out.clear(); c.opn(0, 5, 0); Bytes o; o.swap(c.out);
                b = mutate(g, g.chance(30) ? c.helloFrame() : g.chance(50) ? o : c.secured("MSG", c.chan, c.token, sq + 1, 1, c.body(sEndpoints, 1)));
            }
            // a mutated frame may still be a proper message that presents another client's token
            if (what != 0 && b.size() > 24 && !memcmp(b.data(), "MSG", 3) && stealsSession(s, Bytes(b.begin() + 24, b.end()), &c)) continue;
            c.put(b);
            c.flush(g.chance(50));
            ++sent;
            vh::count("hostile_messages");
            if (g.chance(40)) victims("another client sent garbage");
        }
        s.w.settle();
        victims("another client sent garbage");
        s.mix(c.closed() * 2 + 1);
        vh::count(c.closed() ? "hostile_closed" : "hostile_tolerated");
        if (!c.closed()) { if (g.chance(70)) c.leave(g.chance(50)); s.w.settle(); }
    }
    (void)sent;
    victims("hostile clients left");
    // and newcomers are welcome
    auto& x = s.add(); x.start(); x.request(sEndpoints, 1); x.sync(); x.settled("U09");
    s.done("hostile_histories");
}
// memory does not grow with what a client sends
void growth(Rng& g, uint64_t)
{
#if defined(__SANITIZE_ADDRESS__)
    Run s(g);
    s.hostileAllowed = true;
    s.up();
    auto& c = s.add(); c.start();
    c.modelled = false;
    unsigned kind = g.below(4);
    auto one = [&](unsigned i)
    {
        Bytes p;
        if (kind == 0) { Wr w; w.node(2, 0, 1000000 + i * 7919); p = w.b; }
        else if (kind == 1) { p = c.body(sClose, i, 33 + i); }
        else if (kind == 2) { p = c.body(sEndpoints, i, i); p.resize(g.below(p.size())); }
        else { p = c.body(sRead, i, i); }
        c.put(c.secured("MSG", c.chan, c.token, ++c.seq, i, p));
        c.flush();
        if (i % 8 == 0) s.w.settle();
        c.c->fromSut.clear(); c.pos = 0; c.c->sendSizes.clear(); c.c->sendTimes.clear();
    };
    unsigned i = 0;
    for (; i < 600; ++i) one(i);
    s.w.settle();
    size_t a = __sanitizer_get_current_allocated_bytes();
    for (; i < 4600; ++i) one(i);
    s.w.settle();
    size_t b = __sanitizer_get_current_allocated_bytes();
    CHK("U09", !c.closed(), "growth-closed", "the client was closed");
    CHK("U09", b < a + 100000, "memory-grows", "4000 messages of kind %u took %zu bytes for good", kind, b - a);
    vh::count("growth_runs");
#else
    (void)g;
#endif
}
// nor with the clients that come and go
void turnoverGrowth(Rng& g, uint64_t n)
{
#if defined(__SANITIZE_ADDRESS__)
    Run s(g);
    s.up(0);
    unsigned kind = n % 6;
    auto one = [&](unsigned i)
    {
        auto& x = s.add();
        if (kind == 0) { x.connect(); x.hello(); x.sync(); }
        else
        {
            x.start();
            if (kind == 2) for (int k = 0; k < 3; ++k) { x.renew(); x.sync(); }
            if (kind == 3) for (int k = 0; k < 3; ++k) { x.request(sEndpoints, 1 + i % 2); x.sync(); }
            if (kind >= 4)
            {
                x.request(sCreate, 1 + i % 2); x.sync();
                uint32_t t = x.lastSession;
                if (kind == 5) { x.request(sActivate, 1, t); x.sync(); x.request(sRead, 1 + i % 2, t); x.sync(); }
                x.request(sClose, 1, t); x.sync();
                s.sessionOwner.erase(t);
            }
            x.settled("U09");
        }
        if (i % 3 == 0 && kind) { x.closeChannel(); x.flush(); s.w.settle(); }
        else if (i % 3 == 1) x.leave(true);
        else x.leave();
        s.w.settle();
        s.clients.clear(); s.byConn.clear(); s.owner.clear(); s.w.conns.clear(); s.closeAsked.clear();
        if (vh::failed()) throw vh::StopCase();
    };
    unsigned i = 0;
    for (; i < 100; ++i) one(i);
    vh::clearTrace();
    size_t a = __sanitizer_get_current_allocated_bytes();
    for (; i < 600; ++i) one(i);
    vh::clearTrace();
    size_t b = __sanitizer_get_current_allocated_bytes();
    CHK("U09", b < a + 4000, "memory-grows", "500 clients of kind %u took %zu bytes for good", kind, b - a);
    vh::count("turnover_growth_runs");
    vh::maxi("max_turnover_growth", b > a ? b - a : 0);
#else
    (void)g; (void)n;
#endif
}

// Numbers that only ever grow: what works for the first client and message works for the 70000th as well.
void endurance(Rng& g, unsigned kind)
{
    Run s(g);
    s.up(0);
    unsigned const total = RUNNING_ON_VALGRIND ? 400 : vh::ctx.thorough ? 140000 : 66500;
    auto trim = [&](Client& c)
    {
        if (c.pos == c.c->fromSut.size()) { c.c->fromSut.clear(); c.pos = 0; c.c->sendSizes.clear(); c.c->sendTimes.clear(); }
        c.got.clear();
        vh::clearTrace();
        if (vh::failed()) throw vh::StopCase();
    };
    auto drop = [&](Client& c, unsigned i)
    {
        if (i % 3 == 0 && c.open) { c.closeChannel(); c.flush(); s.w.settle(); }
        else c.leave(i % 3 == 1);
        s.w.settle();
        s.clients.clear(); s.byConn.clear(); s.owner.clear(); s.w.conns.clear(); s.past.clear();
        vh::clearTrace();
        if (vh::failed()) throw vh::StopCase();
    };
    auto whole = [&](Client& c) { c.flush(true); s.w.settle(); };
    if (kind == 0 || kind == 1)             // messages or renewals on one channel, another client beside it
    {
        auto& c = s.add(); c.start();
        auto& d = s.add(); d.start();
        for (unsigned i = 0; i < total;)
        {
            unsigned k = kind == 1 ? 1 : 1 + g.below(20);   // the new token has to be known
            for (unsigned j = 0; j < k; ++j, ++i)
            {
                if (kind == 0 || g.chance(5)) c.request(sEndpoints, 1); else c.renew();
            }
            whole(c); c.mustBeOpen("U04U05U07U08", "only valid messages were sent"); c.settled("U04U05U07U08"); trim(c);
            if (i % 64 == 0) { d.request(sEndpoints, 1); whole(d); d.settled("U04U05U07U08"); trim(d); }
        }
    }
    else if (kind == 2)                     // sessions
    {
        auto& c = s.add(); c.start();
        for (unsigned i = 0; i < total; ++i)
        {
            c.request(sCreate, 1); whole(c); c.settled("U06U07U08");
            uint32_t t = c.lastSession;
            if (i % 64 == 0) { c.request(sActivate, 1, t); whole(c); c.request(sRead, 1, t); whole(c); }
            c.request(sClose, 1, t); whole(c); c.settled("U06U07U08");
            s.sessionOwner.erase(t);
            trim(c);
        }
    }
    else                                    // connections (3: channel, 4: hello only, 5: silent)
    {
        for (unsigned i = 0; i < total; ++i)
        {
            auto& c = s.add();
            if (kind == 3) { c.start(); if (i % 64 == 0) { c.request(sEndpoints, 1); c.sync(); } c.settled("U04U05U07U08"); }
            else { c.connect(); if (kind == 4) { c.hello(); whole(c); c.settled("U04U05U07U08"); } }
            drop(c, i);
        }
    }
    // and it is still the same server
    auto& c = s.add(); c.start();
    c.request(sCreate, 1); c.sync(); c.settled("U04U05U07U08");
    c.request(sActivate, 1, c.lastSession); c.sync(); c.settled("U04U05U07U08");
    c.request(sRead, 1, c.lastSession); c.sync(); c.settled("U04U05U07U08");
    c.mustBeOpen("U04U05U07U08", "only valid messages were sent");
    vh::count("endurance_runs");
    vh::count("endurance_steps", total);
    s.done();
}
void enduranceOf(std::vector<unsigned> kinds) { vh::suite("endurance", kinds.size(), 2 * kinds.size(), [=](Rng& g, uint64_t i) { endurance(g, kinds[i % kinds.size()]); }); }

// ---- nearly everything is in use, so that whoever comes next takes over what somebody else has just left ----
void crowd(Rng& g, uint64_t)
{
    Run s(g);
    s.Sys::up();
    unsigned n = g.chance(70) ? 31 - g.below(3) : 20 + g.below(12);
    for (unsigned i = 0; i < n; ++i) { auto& c = s.add(); c.start(); }
    unsigned const residents = s.clients.size();
    struct X { Client* c; unsigned stage, todo; bool over, asked; unsigned session; };
    unsigned sessions = 0;
    std::vector<X> xs;
    auto& sr = s.shared ? s.r0 : s.r1; auto& vr = s.shared ? s.r0 : s.r2;
    unsigned rounds = 40 + g.below(120);
    auto optional = [](Client& c) { for (auto& e : c.exp) e.optional = true; for (auto& e : c.fwd) e.optional = true; };
    auto end = [&](X& x)
    {
        x.over = true;
        optional(*x.c);
        if (g.chance(40) && x.c->open && !x.c->closed()) { for (unsigned k = 1 + g.below(3); k; --k) x.c->request(sEndpoints, 2); optional(*x.c); }
        ending(s, *x.c, g.below(10));
        optional(*x.c);
        if (g.chance(70)) x.c->leave(g.chance(30));
        x.c->gone = true;
        vh::count("crowd_endings");
    };
    for (unsigned r = 0; r < rounds; ++r)
    {
        unsigned active = 0; for (auto& x : xs) if (!x.over) ++active;
        if (active < 1 + g.below(4))
        {
            auto& c = s.add();
            if (!c.connect()) throw vh::StopCase();
            xs.push_back({&c, 0, 1 + (unsigned)g.below(3), false, false, 0});
        }
        else
        {
            auto& x = xs[g.below(xs.size())];
            auto& c = *x.c;
            if (x.over) {}
            else if (c.closed() && !c.ack) { x.over = true; optional(c); c.gone = true; vh::count("crowd_refused"); } // no room
            else if (g.chance(12)) end(x);
            else if (x.stage == 0) { c.hello(); if (g.chance(40)) { c.openChannel(); x.asked = true; } c.flush(); x.stage = 1; }
            else if (x.stage == 1 && c.ack)
            {
                c.mustBeOpen("U04U05U07U09", "a client that only sent valid messages took over what another one had left");
                if (!x.asked) { c.openChannel(); x.asked = true; c.flush(); }
                x.stage = 2;
            }
            else if (x.stage == 2)
            {
                c.mustBeOpen("U04U05U07U09", "a client that only sent valid messages took over what another one had left");
                if (c.open && !c.owed('O'))
                {
                    unsigned a = g.below(100);
                    if (a < 40 && x.session == 0 && sessions < 24) { c.request(sCreate, 1); x.session = 1; ++sessions; }
                    else if (a < 40 && x.session == 1 && c.lastSession) { c.request(sActivate, 1, c.lastSession); x.session = 2; }
                    else if (a < 40 && x.session == 2 && !c.owed('M')) c.request(sRead, 1, c.lastSession);
                    else if (a < 60 && x.session < 2) { c.request(sRead, 0); vh::count("crowd_strangers"); } // nobody's session is his
                    else c.request(sEndpoints, 1);
                    if (g.chance(20)) c.renew();
                    c.flush();
                    if (x.session == 0 && !--x.todo) end(x);
                } // (the token is the old one until the answer is there)
            }
        }
        if (!s.shared && g.chance(15)) sr.busy = !sr.busy;
        if (!s.shared && g.chance(15)) vr.busy = !vr.busy;
        if (g.chance(10)) s.w.settle(); else s.w.steps(g.below(8));
    }
    sr.busy = vr.busy = false;
    s.w.settle();
    for (unsigned i = 0; i < residents; ++i) s.clients[i]->mustBeOpen("U04U05U07U09", "others came and went");
    unsigned served = 0;
    for (auto& x : xs)
    {
        auto& c = *x.c;
        if (x.over) continue;
        if (!c.ack) { optional(c); c.gone = true; s.w.peerClose(c.c); continue; }
        c.mustBeOpen("U04U05U07U09", "a client that only sent valid messages took over what another one had left");
        if (!c.open) { optional(c); c.leave(); continue; } // channels were short
        c.settled(); c.request(sEndpoints, 1); c.sync(); c.settled();
        ++served;
    }
    vh::count("crowd_served", served);
    for (unsigned i = 0; i < residents; ++i) if (g.chance(30)) { auto& c = *s.clients[i]; c.request(sEndpoints, 1); c.sync(); c.settled(); c.mustBeOpen("U04U05U07U09", "others came and went"); }
    vh::count("crowds");
    if (mine("U08"))
    {
        for (auto& c : s.clients) { optional(*c); if (!c->closed() && !c->gone) c->leave(g.chance(30)); c->gone = true; }
        s.w.settle();
        for (auto& c : s.clients) if (!c->closed()) { s.w.advance(31 * SEC); break; }
        nothingLeft(s, "all clients of a crowd gone");
        for (auto& c : s.clients) { c->exp.clear(); c->fwd.clear(); }
        fullHouse(s, "after a crowd");
    }
    s.done();
}

// a session whose channel is gone belongs to nobody who comes later, whatever channel he is given
void channelReuse(Rng& g, uint64_t)
{
    Run s(g);
    s.up(2);
    auto& a = s.add(); a.start();
    a.request(sCreate, 1); a.sync(); a.settled("U06");
    uint32_t t = a.lastSession;
    bool activated = g.chance(50);
    if (activated) { a.request(sActivate, 1, t); a.sync(); a.settled("U06"); }
    if (g.chance(30)) { a.closeChannel(); a.sync(); } else a.leave(g.chance(50));
    s.w.settle();
    a.gone = true;
    for (unsigned i = 0; i < 70; ++i)
    {
        auto& c = s.add(); c.start();
        if (c.chan == a.chan) vh::count("channel_ids_reused");
        unsigned n = c.answered;
        c.request(sClose, 0, t); c.sync();
        CHK("U06", c.answered == n, "reused-channel-owns-session", "session %u, created on channel %u that has ended, was closed by a later client on channel %u", t, a.chan, c.chan);
        if (!activated && g.chance(30)) { c.request(sActivate, 0, t); c.sync(); CHK("U06", c.answered == n, "reused-channel-owns-session", "session %u, created on channel %u that has ended, was activated by a later client on channel %u", t, a.chan, c.chan); }
        if (g.chance(30)) { c.request(sRead, 0); c.sync(); CHK("U06", c.answered == n, "reused-channel-owns-session", "a client on channel %u that never activated a session was served", c.chan); }
        if (vh::failed()) throw vh::StopCase();
        c.mustBeOpen("U06", "requests for a session of somebody else");
        if (g.chance(20)) { c.closeChannel(); c.sync(); } else c.leave(g.chance(50));
        s.w.settle();
        c.gone = true; c.exp.clear(); c.fwd.clear();
    }
    vh::count("channel_reuse_probes");
    s.done();
}

void u04() { vh::suite("framing", 7800, 60000, framing); vh::suite("answers", 600, 3000, answers); vh::suite("crowd", 240, 2400, crowd); enduranceOf({0, 3, 4, 5}); }
void u05() { vh::suite("channels", 6600, 50000, channels); vh::suite("long-channel", 900, 5000, longChannel); vh::suite("framing", 600, 3000, framing); vh::suite("crowd", 480, 4800, crowd); enduranceOf({0, 1, 3}); }
void u06() { vh::suite("sessions", 6600, 50000, sessions); vh::suite("session-races", 4500, 30000, sessionRaces); vh::suite("crowd", 240, 2400, crowd); enduranceOf({2}); vh::suite("channel-reuse", 90, 900, channelReuse); }
void u07() { vh::suite("answers", 4500, 40000, answers); vh::suite("sessions", 1500, 9000, sessions); vh::suite("session-races", 1500, 9000, sessionRaces); vh::suite("long-channel", 600, 3000, longChannel); vh::suite("crowd", 480, 4800, crowd); enduranceOf({0, 1, 2}); }
void u08() { vh::suite("conserve", 2700, 20000, conserve); vh::suite("session-turnover", 360, 2000, sessionTurnover); vh::suite("idle", 450, 2000, idle); vh::suite("crowd", 240, 2400, crowd); enduranceOf({1, 2, 3, 4, 5}); }
void u09() { vh::suite("hostile", 6600, 60000, hostile); vh::suite("crowd", 240, 2400, crowd); vh::suite("growth", 8, 64, growth); vh::suite("turnover-growth", 24, 120, turnoverGrowth); }
} // namespace

int main(int argc, char** argv)
{
    return vh::mainImpl(argc, argv, {{"U04", u04}, {"U05", u05}, {"U06", u06}, {"U07", u07}, {"U08", u08}, {"U09", u09}});
}

// The real OPC UA transport, secure channel and service components in the virtual-time world, with reference clients that
// encode requests and parse answers on their own. Checks that hold for every history are made as answers arrive.
#pragma once
#include "vworld.hpp"
#include "UaTransportComponent.hpp"
#include "UaTransport.hpp"
#include "UaSecureChannelComponent.hpp"
#include "UaSecureChannel.hpp"
#include "UaServiceComponent.hpp"
#include "UaService.hpp"
#include "MsgStore.hpp"
#include "MsgUaTransportInitReq.hpp"
#include "MsgUaTransportReleaseReq.hpp"
#include "MsgUaTransportConfigReq.hpp"
#include "MsgUaSecureChannelInitReq.hpp"
#include "MsgUaSecureChannelReleaseReq.hpp"
#include "MsgUaServiceInitReq.hpp"
#include "MsgUaServiceReleaseReq.hpp"
#include "MsgUaEncodedMessageReceiveInd.hpp"
#include "MsgDefs.hpp"

namespace uw
{
using namespace vw;
using namespace app;
using vh::Rng;
using vh::Bytes;

// C01 (the whole system) requires all of it
inline bool mine(char const* props) { return vh::ctx.prop == "C01" || strstr(props, vh::ctx.prop.c_str()) != nullptr; }
#define CHK(props, cond, key, ...) do { if (uw::mine(props)) VCHECK(cond, key, __VA_ARGS__); } while (0)
constexpr long MS = 1000, SEC = 1000000;

// virtual wall clock (UTC, microseconds since 1970) seen by the code under test
extern int64_t wallBase;
extern bool wallOn;

// ---- wire format, written from the specification ----
struct Wr
{
    Bytes b;
    Wr& u8(unsigned v) { b.push_back((uint8_t)v); return *this; }
    Wr& u16(unsigned v) { u8(v); return u8(v >> 8); }
    Wr& u32(uint32_t v) { u16(v & 0xffff); return u16(v >> 16); }
    Wr& u64(uint64_t v) { u32((uint32_t)v); return u32((uint32_t)(v >> 32)); }
    Wr& raw(Bytes const& x) { b.insert(b.end(), x.begin(), x.end()); return *this; }
    Wr& str(std::string const& s) { u32((uint32_t)s.size()); b.insert(b.end(), s.begin(), s.end()); return *this; }
    Wr& null() { return u32(0xffffffff); }
    Wr& f64(double d) { uint64_t v; memcpy(&v, &d, 8); return u64(v); }
    Wr& type(unsigned id) { return u8(1).u8(0).u16(id); }             // four-byte numeric node id
    Wr& node(unsigned form, unsigned ns, uint32_t id)
    {
        if (form == 0) return u8(0).u8(id);
        if (form == 1) return u8(1).u8(ns).u16(id);
        return u8(2).u16(ns).u32(id);
    }
};
struct Rd
{
    uint8_t const* p; uint8_t const* e; bool ok = true;
    Rd(uint8_t const* a, uint8_t const* z) : p(a), e(z) {}
    unsigned u8() { if (p >= e) { ok = false; return 0; } return *p++; }
    unsigned u16() { unsigned a = u8(); return a | u8() << 8; }
    uint32_t u32() { uint32_t a = u16(); return a | (uint32_t)u16() << 16; }
    uint64_t u64() { uint64_t a = u32(); return a | (uint64_t)u32() << 32; }
    std::string str()
    {
        uint32_t n = u32();
        if (n == 0xffffffff) return {};
        if (!ok || n > (size_t)(e - p)) { ok = false; return {}; }
        std::string s((char const*)p, n); p += n; return s;
    }
    int32_t count() { uint32_t n = u32(); if (n == 0xffffffff) return 0; if (n > (size_t)(e - p)) { ok = false; return 0; } return (int32_t)n; }
    // numeric node id (0 otherwise)
    uint32_t node(unsigned* nsOut = nullptr, unsigned* mask = nullptr)
    {
        unsigned m = u8(); if (mask) *mask = m;
        unsigned ns = 0; uint32_t id = 0;
        switch (m & 0x3f)
        {
        case 0: id = u8(); break;
        case 1: ns = u8(); id = u16(); break;
        case 2: ns = u16(); id = u32(); break;
        case 3: case 5: ns = u16(); str(); ok = ok && m != 99; id = 0; break;
        case 4: ns = u16(); for (int i = 0; i < 16; ++i) u8(); break;
        default: ok = false;
        }
        if (nsOut) *nsOut = ns;
        return id;
    }
    void ext() { unsigned m; node(nullptr, &m); unsigned k = u8(); if (k == 1 || k == 2) str(); else if (k) ok = false; }
    bool done() const { return ok && p == e; }
};

enum Svc : unsigned { sEndpoints = 428, sOpen = 446, sCloseCh = 452, sCreate = 461, sActivate = 467, sClose = 473, sRead = 631 };
inline unsigned answerType(unsigned s) { return s + 3; }

struct UWorld : World
{
    using World::World;
    std::function<void(rx::MsgInterface const&)> onMsg;
    void send(rx::MsgInterface const& m) override { if (onMsg) onMsg(m); World::send(m); }
};

struct Client;

struct Sys
{
    Rng& rng;
    UWorld w;
    VReactor r0, r1, r2;
    std::unique_ptr<ua::transport::UaTransportComponent> tr;
    std::unique_ptr<ua::securechannel::UaSecureChannelComponent> sc;
    std::unique_ptr<ua::service::UaServiceComponent> sv;
    unsigned initRsp = 0, relRsp = 0, otherMsgs = 0;
    rx::LinkAddr addr = mkAddr(127, 0, 0, 1, 4840);
    std::map<uint32_t, Client*> owner;                     // open channel -> client
    std::map<Conn*, Client*> byConn;
    std::vector<std::unique_ptr<Client>> clients, past;
    std::set<uint32_t> abandoned;                          // sessions left open by clients of the past
    uint64_t hist = 1469598103934665603ull;                // history hash
    uint64_t forwarded = 0, answers = 0, unknownForwards = 0;
    bool shared;
    bool hostileAllowed = false;                           // clients without reference model exist
    std::set<uint32_t> sessionsSeen;
    std::map<uint32_t, Client*> sessionOwner;              // open sessions
    std::set<uint32_t> closeAsked;                         // their owner asked to close them; the answer may be lost with the connection

    explicit Sys(Rng& g);
    ~Sys();
    VReactor& tReactor() { return r0; }
    template <class M> void ctl() { rx::MsgStore<M> st; w.World::send(st.getMsg()); }
    void init();
    void config() { rx::MsgStore<MsgUaTransportConfigReq> st; st.getMsg().addr = addr; w.World::send(st.getMsg()); }
    void up() { init(); w.settle(); config(); w.settle(); }
    void release();
    Client& add();
    void mix(uint64_t v) { hist = vh::hashMix(hist, v); }
    int64_t ticks() const { return (wallBase + w.now) * 10 + 116444736000000000ll; }
    void onForward(MsgUaEncodedMessageReceiveInd const& m);
    void wait(long t);                                      // nobody runs into the idle timeout
    unsigned openConns() { unsigned n = 0; for (auto* l : w.links) if (l->conn) ++n; return n; }
};

struct Exp { char kind; unsigned svc; uint32_t rid, handle; int64_t t0; bool optional; uint32_t token; bool strict; uint32_t life = 0; double timeout = 0; uint32_t maxMsg = 0; };
struct Fwd { uint32_t rid; Bytes payload; bool optional; };
struct Ans { char kind; unsigned svc; uint32_t rid, handle; uint32_t session = 0, auth = 0; };

struct Client
{
    Sys& s;
    Rng& rng;
    unsigned id;
    ConnPtr c;
    size_t pos = 0;
    bool modelled = true;            // false: whatever it sends, only memory safety and the other clients are judged
    bool helloSent = false, ack = false, open = false, closing = false;
    bool bad = false;                // something invalid was sent: the server has to close
    bool gone = false;               // the peer end was closed by us
    uint32_t chan = 0, token = 0, seq = 0, nextRx = 0;
    bool haveRx = false;
    uint32_t rid = 0, handle = 0;
    std::deque<Exp> exp;
    std::deque<Fwd> fwd;
    std::vector<Ans> got;
    Bytes out;                       // composed, not yet sent
    long lastTx = 0;
    uint32_t lastSession = 0;        // from the latest create answer
    unsigned acks = 0, answered = 0;
    uint32_t askedLife = 0, askedMsg = 0; double askedTimeout = 0; // what the message composed last asks for
    std::set<uint32_t> chans;

    Client(Sys& s_, unsigned i) : s(s_), rng(s_.rng), id(i)
    {
        seq = rng.pick<uint32_t>({0, 1, 51, 0x7fffffff, 0xfffffffe, 0xffffffff, (uint32_t)rng.next()});
        rid = rng.pick<uint32_t>({0, 1, 0xfffffff0, (uint32_t)rng.next()});
        handle = (uint32_t)rng.next();
    }
    bool closed() const { return !c || c->sutClosed || c->reset; }
    bool connect()
    {
        c = s.w.connectTo(s.addr);
        if (!c) return false;
        s.byConn[c.get()] = this;
        lastTx = s.w.now;
        vh::count("connections");
        return true;
    }
    // ---- composing ----
    static Bytes frame(char const* type, Bytes const& body, int64_t size = -1, char fin = 'F')
    {
        Wr w; w.u8(type[0]).u8(type[1]).u8(type[2]).u8(fin).u32(size < 0 ? (uint32_t)(8 + body.size()) : (uint32_t)size).raw(body);
        return w.b;
    }
    std::string text(unsigned max) { std::string r; for (unsigned n = rng.below(max + 1); n; --n) r += (char)rng.range(0x20, 0x7e); return r; }
    void rstr(Wr& w, unsigned max = 24) { if (rng.chance(30)) w.null(); else w.str(text(max)); }
    void rarr(Wr& w) { unsigned k = rng.below(5); if (k < 2) { w.null(); return; } w.u32(k - 2); for (unsigned i = 2; i < k; ++i) rstr(w); }
    Bytes helloFrame(unsigned urlLen = 40)
    {
        Wr w; w.u32(rng.chance(80) ? 0 : rng.next()).u32(65536).u32(65536).u32(rng.next()).u32(rng.below(6000));
        rstr(w, urlLen);
        return frame("HEL", w.b);
    }
    void reqHdr(Wr& w, uint32_t h, uint32_t auth, unsigned ns = 0)
    {
        if (auth < 256 && ns == 0 && rng.chance(50)) w.node(0, 0, auth);
        else if (auth < 65536 && ns < 256 && rng.chance(50)) w.node(1, ns, auth);
        else w.node(2, ns, auth);
        w.u64(rng.next()).u32(h).u32(rng.chance(70) ? 0 : rng.next());
        rstr(w);
        w.u32(rng.pick<uint32_t>({0, 10000, 0xffffffff}));
        if (rng.chance(80)) w.u8(0).u8(0).u8(0); else { w.node(1, 0, rng.below(500)).u8(1); w.str(text(10)); }
    }
    Bytes body(unsigned svc, uint32_t h, uint32_t auth = 0, unsigned big = 0, unsigned ns = 0)
    {
        Wr w;
        if (rng.chance(15)) w.node(2, 0, svc); else w.type(svc);
        reqHdr(w, h, auth, ns);
        switch (svc)
        {
        case sEndpoints: if (big) w.str(std::string(big, 'u')); else rstr(w, 60); rarr(w); rarr(w); break;
        case sCloseCh: break;
        case sCreate:
            rstr(w); rstr(w); { unsigned m = rng.below(4); w.u8(m); if (m & 1) w.str("en" + text(3)); if (m & 2) w.str("x" + text(10)); }
            w.u32(rng.below(4)); rstr(w); rstr(w); rarr(w);
            rstr(w); rstr(w, 40); rstr(w); rstr(w, 32); rstr(w, 32); askedTimeout = rng.pick({1000.0, 0.0, 3600000.0, 1.5e9, 1.0 + rng.below(1000000)}); w.f64(askedTimeout); askedMsg = rng.pick<uint32_t>({0, 65536, 0xffffffff, (uint32_t)rng.next()}); w.u32(askedMsg);
            break;
        case sActivate:
            rstr(w); rstr(w); w.u32(rng.chance(50) ? 0xffffffff : 0); rarr(w);
            if (rng.chance(50)) w.u8(0).u8(0).u8(0); else { w.type(321).u8(1).str(std::string("\x09\0\0\0Anonymous", 13)); }
            rstr(w); rstr(w);
            break;
        case sClose:
            w.u8(rng.below(2));
            if (auto it = s.sessionOwner.find(auth); it != s.sessionOwner.end() && it->second == this) s.closeAsked.insert(auth);
            break;
        case sRead:
        {
            w.f64(0).u32(rng.below(4));
            unsigned n = rng.below(4);
            w.u32(n);
            for (unsigned i = 0; i < n; ++i) { w.node(rng.below(3), 0, rng.below(256)); w.u32(rng.range(1, 22)); rstr(w); w.u16(0); rstr(w); }
            break;
        }
        default: w.raw(Bytes(rng.below(60), 0x55)); break;
        }
        return w.b;
    }
    void put(Bytes const& b) { out.insert(out.end(), b.begin(), b.end()); }
    void hello() { helloSent = true; put(helloFrame()); }
    // open (first) or renew
    void opn(uint32_t chanId, uint32_t seqNo, unsigned reqType, Bytes* tail = nullptr)
    {
        Wr w; w.u32(chanId);
        if (rng.chance(90)) w.str("http://opcfoundation.org/UA/SecurityPolicy#None"); else rstr(w);
        w.null(); if (rng.chance(80)) w.null(); else w.str(text(20));
        ++rid; ++handle;
        w.u32(seqNo).u32(rid);
        w.type(sOpen);
        reqHdr(w, handle, 0);
        w.u32(0).u32(reqType).u32(1);
        rstr(w, 32);
        askedLife = rng.pick<uint32_t>({3600000, 0, 1000, 0xffffffff, (uint32_t)rng.next()});
        w.u32(askedLife);
        if (tail) w.raw(*tail);
        put(frame("OPN", w.b));
    }
    void openChannel() { opn(0, seq, 0); exp.push_back({'O', sOpen, rid, handle, s.ticks(), false, 0, true, askedLife}); }
    void renew() { ++seq; opn(chan, seq, 1); exp.push_back({'O', sOpen, rid, handle, s.ticks(), false, 0, true, askedLife}); vh::count("renewals"); }
    Bytes secured(char const* type, uint32_t ch, uint32_t tok, uint32_t sq, uint32_t r, Bytes const& payload)
    {
        Wr w; w.u32(ch).u32(tok).u32(sq).u32(r).raw(payload);
        return frame(type, w.b);
    }
    // a well-formed message on this client's channel. answer: 1 expected, 0 none, 2 either
    void msg(unsigned svc, Bytes const& payload, int answer)
    {
        ++seq; ++rid;
        put(secured("MSG", chan, token, seq, rid, payload));
        fwd.push_back({rid, payload, false});
        if (answer) exp.push_back({'M', svc, rid, handle, s.ticks(), answer == 2, 0, true, 0, askedTimeout, askedMsg});
    }
    void request(unsigned svc, int answer, uint32_t auth = 0, unsigned big = 0, unsigned ns = 0) { ++handle; msg(svc, body(svc, handle, auth, big, ns), answer); vh::count("requests"); s.mix(svc * 7 + answer); }
    void closeChannel()
    {
        ++seq; ++rid; ++handle; closing = true;
        put(secured("CLO", chan, token, seq, rid, body(sCloseCh, handle)));
        exp.push_back({'C', sCloseCh, rid, handle, s.ticks(), false, 0, true});
    }
    // ---- sending ----
    void transmit(Bytes const& b)
    {
        if (b.empty()) return;
        lastTx = s.w.now;
        vh::trace(vh::fmt("%ld client %u (channel %u) sends %s", s.w.now, id, chan, vh::hex(b, 48).c_str()));
        s.w.peerSend(c, b);
    }
    void flush(bool whole = true)
    {
        if (whole) { Bytes b; b.swap(out); if (!gone) transmit(b); return; }
        while (!out.empty())
        {
            size_t n = rng.chance(30) ? 1 + rng.below(12) : rng.chance(40) ? out.size() : 1 + rng.below(out.size());
            n = std::min(n, out.size());
            Bytes b(out.begin(), out.begin() + n);
            out.erase(out.begin(), out.begin() + n);
            if (!gone) transmit(b);
            vh::count("segments");
            if (rng.chance(60)) s.w.steps(1 + rng.below(6));
        }
    }
    bool owed(char kind = 0) const { for (auto& e : exp) if (!e.optional && (!kind || e.kind == kind)) return true; return false; }
    void sync() { flush(rng.chance(50)); s.w.settle(); }
    void leave(bool rst = false) { gone = true; if (rst) s.w.peerReset(c); else s.w.peerClose(c); }
    // ---- answers ----
    static std::string endpointOf(Rd& r)
    {
        std::string o = r.str(); o += '|';
        o += r.str() + '|'; o += r.str() + '|';
        unsigned m = r.u8(); if (m & 1) o += r.str(); if (m & 2) o += r.str();
        o += '|' + std::to_string(r.u32()) + '|'; o += r.str() + '|'; o += r.str() + '|';
        for (int n = r.count(); n > 0 && r.ok; --n) o += r.str() + ',';
        o += '|' + r.str() + '|'; o += std::to_string(r.u32()) + '|'; o += r.str() + '|';
        for (int n = r.count(); n > 0 && r.ok; --n) { o += r.str(); o += std::to_string(r.u32()); o += r.str(); o += r.str(); o += r.str(); }
        o += '|' + r.str() + '|'; o += std::to_string(r.u8());
        return o;
    }
    void pump()
    {
        auto& f = c->fromSut;
        while (f.size() - pos >= 8)
        {
            Rd h(f.data() + pos, f.data() + f.size());
            std::string type; for (int i = 0; i < 3; ++i) type += (char)h.u8();
            unsigned fin = h.u8(); uint32_t size = h.u32();
            if (size < 8 || size > 65536) { CHK("U04U05U07U09", false, "answer-size", "client %u got a frame with size %u", id, size); throw vh::StopCase(); }
            if (f.size() - pos < size) return;
            Rd r(f.data() + pos + 8, f.data() + pos + size);
            pos += size;
            vh::count("frames_received");
            vh::trace(vh::fmt("%ld client %u gets %s", s.w.now, id, vh::hex(Bytes(r.p - 8, r.e), 48).c_str()));
            take(type, fin, r);
        }
    }
    void take(std::string const& type, unsigned fin, Rd r)
    {
        CHK("U04U05U07U09", fin == 'F', "answer-chunk", "client %u: chunk flag %02x", id, fin);
        if (type == "ACK")
        {
            ++acks;
            uint32_t v = r.u32(), rb = r.u32(), sb = r.u32(), mm = r.u32(), mc = r.u32();
            CHK("U04U09", r.done() && v == 0 && rb == 65536 && sb == 65536 && mm == 5000u * 65536u && mc == 5000, "ack-content", "client %u: acknowledge %u %u %u %u %u", id, v, rb, sb, mm, mc);
            if (modelled) CHK("U04U09", acks == 1 && helloSent, "ack-count", "client %u: acknowledge #%u%s", id, acks, helloSent ? "" : " without a hello");
            ack = true;
            return;
        }
        CHK("U04", ack, "answer-before-ack", "client %u got %s before an acknowledge", id, type.c_str());
        char kind = type == "OPN" ? 'O' : type == "MSG" ? 'M' : type == "CLO" ? 'C' : 0;
        if (!kind) { CHK("U04U05U07U09", false, "answer-kind", "client %u got a frame of type %s", id, type.c_str()); throw vh::StopCase(); }
        if (!modelled) return;
        ++answered;
        uint32_t ch = r.u32(), tok = 0;
        if (kind == 'O')
        {
            std::string pol = r.str(), cert = r.str(), thumb = r.str();
            CHK("U05U07", r.ok && pol == "http://opcfoundation.org/UA/SecurityPolicy#None" && cert.empty() && thumb.empty(), "answer-security", "client %u: security header %s", id, pol.c_str());
        }
        else
        {
            tok = r.u32();
            CHK("U05U09", open && ch == chan && tok == token, "answer-channel", "client %u (channel %u token %u) got %s for channel %u token %u", id, chan, token, type.c_str(), ch, tok);
        }
        uint32_t sq = r.u32(), rq = r.u32();
        if (haveRx) CHK("U05U09", sq == nextRx, "answer-sequence", "client %u: sequence number %u, expected %u", id, sq, nextRx);
        haveRx = true; nextRx = sq + 1;
        unsigned ns = 0, mask = 0; uint32_t ty = r.node(&ns, &mask);
        int64_t ts = (int64_t)r.u64(); uint32_t hd = r.u32(), res = r.u32();
        unsigned diag = r.u8();
        for (int n = r.count(); n > 0 && r.ok; --n) r.str();
        r.ext();
        // which request is this for?
        size_t k = 0;
        // (channel answers come from another component and may overtake service answers)
        while (k < exp.size() && (exp[k].kind != kind || (exp[k].optional && !(exp[k].rid == rq && exp[k].handle == hd)))) ++k;
        if (k >= exp.size())
        {
            CHK("U04U05U06U07U09", false, "unexpected-answer", "client %u got an answer of type %u (request %u) it is not owed", id, ty, rq);
            throw vh::StopCase();
        }
        Exp e = exp[k];
        { std::deque<Exp> rest; for (size_t i = 0; i < exp.size(); ++i) if (i > k || (i < k && exp[i].kind != kind)) rest.push_back(exp[i]); exp.swap(rest); }
        CHK("U07U09", e.kind == kind && rq == e.rid && hd == e.handle, "answer-ids", "client %u: answer %s request %u handle %u, expected %c %u %u", id, type.c_str(), rq, hd, e.kind, e.rid, e.handle);
        CHK("U07U09", ty == answerType(e.svc) && ns == 0 && !(mask & 0xc0), "answer-type", "client %u: answer type %u to request type %u", id, ty, e.svc);
        CHK("U07U09", res == 0 && diag == 0, "answer-status", "client %u: status %08x diagnostics %02x", id, res, diag);
        CHK("U07", ts >= e.t0 && ts <= s.ticks(), "answer-time", "client %u: timestamp %lld not in [%lld, %lld]", id, (long long)ts, (long long)e.t0, (long long)s.ticks());
        Ans a{kind, e.svc, rq, hd};
        switch (ty)
        {
        case sOpen + 3:
        {
            uint32_t pv = r.u32(), ci = r.u32(), ti = r.u32(); int64_t cr = (int64_t)r.u64(); uint32_t life = r.u32(); r.str();
            CHK("U07", life == e.life, "open-lifetime", "client %u: lifetime %u granted, %u requested", id, life, e.life);
            CHK("U05U07", pv == 0 && ci == ch, "open-channel-id", "client %u: open answer in channel %u describes channel %u", id, ch, ci);
            CHK("U07", cr >= e.t0 && cr <= s.ticks(), "answer-time", "client %u: token creation time %lld", id, (long long)cr);
            if (open)
            {
                CHK("U05U09", ch == chan, "renew-keeps", "client %u: renewing channel %u gave channel %u", id, chan, ch);
                CHK("U05", ti != token, "renew-token", "client %u: renewing kept token %u", id, ti);
            }
            else
            {
                auto it = s.owner.find(ch);
                CHK("U05U09", it == s.owner.end() || it->second->closed() || it->second->closing || it->second->gone || it->second->bad, "channel-distinct", "channel %u given to client %u is in use by client %u", ch, id, it == s.owner.end() ? 0 : it->second->id);
                CHK("U05", ch != 0, "channel-zero", "channel id 0");
            }
            open = true; chan = ch; token = ti; s.owner[ch] = this; chans.insert(ch);
            break;
        }
        case sEndpoints + 3:
        {
            int n = r.count();
            std::string d = n == 1 ? endpointOf(r) : "";
            CHK("U07", n == 1 && d == endpointWant(), "endpoint-description", "client %u: %d endpoints: %s", id, n, d.c_str());
            vh::count("endpoint_answers");
            break;
        }
        case sCreate + 3:
        {
            unsigned n1, n2; a.session = r.node(&n1); a.auth = r.node(&n2); uint64_t to = r.u64(); r.str(); r.str();
            double tod; memcpy(&tod, &to, 8);
            int n = r.count(); std::string d = n == 1 ? endpointOf(r) : "";
            CHK("U07", n == 1 && d == endpointWant(), "endpoint-description", "client %u: create session: %d endpoints: %s", id, n, d.c_str());
            int sw = r.count(); if (sw) r.ok = false; r.str(); r.str(); uint32_t mm = r.u32();
            CHK("U07", tod == e.timeout && mm == e.maxMsg, "session-parameters", "client %u: session timeout %g and message size %u granted, %g and %u requested", id, tod, mm, e.timeout, e.maxMsg);
            CHK("U06U08U09", a.auth != 0 && (!s.sessionOwner.count(a.auth) || s.closeAsked.count(a.auth)), "session-distinct", "client %u: session token %u is in use", id, a.auth);
            s.sessionOwner[a.auth] = this;
            s.closeAsked.erase(a.auth);
            lastSession = a.auth;
            vh::count("sessions_created");
            break;
        }
        case sActivate + 3: r.str(); for (int n = r.count(); n > 0 && r.ok; --n) r.u32(); if (r.count()) r.ok = false; vh::count("sessions_activated"); break;
        case sClose + 3: vh::count("sessions_closed"); break;
        case sRead + 3: if (r.count()) r.ok = false; if (r.count()) r.ok = false; vh::count("reads_answered"); break;
        case sCloseCh + 3: open = false; vh::count("channels_closed"); break;
        default: break;
        }
        CHK("U07U02", r.done(), "answer-malformed", "client %u: answer of type %u is malformed", id, ty);
        got.push_back(a);
        ++s.answers;
        s.mix(ty * 31 + id);
        vh::count("answers");
    }
    static std::string endpointWant()
    {
        return "opc.tcp://localhost:4369|urn:youkozlov-VivoBook-ASUSLaptop-X513EAN-K513EA:uscada|urn:uscada||0|||||1|http://opcfoundation.org/UA/SecurityPolicy#None|||0";
    }
    // after everything ran: nothing owed, nothing half forwarded
    void settled(char const* props = "U04U05U07U09")
    {
        if (closed() || bad || gone) return;
        { std::deque<Exp> rest; for (auto& e : exp) if (!e.optional) rest.push_back(e); exp.swap(rest); }
        if (!mine(props)) return;
        VCHECK(exp.empty(), "no-answer", "client %u: request type %u (request id %u, handle %u) was not answered", id, exp.empty() ? 0 : exp.front().svc, exp.empty() ? 0 : exp.front().rid, exp.empty() ? 0 : exp.front().handle);
        VCHECK(fwd.empty(), "not-forwarded", "client %u: message with request id %u was not passed on", id, fwd.empty() ? 0 : fwd.front().rid);
        if (!exp.empty() || !fwd.empty()) throw vh::StopCase();
    }
    void mustBeOpen(char const* props, char const* why)
    {
        if (gone || closing) return;
        CHK(props, !closed(), "closed-without-cause", "client %u: the server closed the connection (%s)", id, why);
        if (closed()) throw vh::StopCase();
    }
    void mustBeClosed(char const* props, char const* why) { CHK(props, closed(), vh::fmt("not-closed:%s", why), "client %u: the connection stays open after: %s", id, why); }
    // connect + handshake + channel, all in one go
    void start(bool pieces = false)
    {
        if (!connect()) { CHK("U04U05U06U07U08U09", false, "not-listening", "nobody listens"); throw vh::StopCase(); }
        hello();
        if (rng.chance(40)) { flush(!pieces); s.w.settle(); }
        openChannel();
        flush(!pieces);
        s.w.settle();
        CHK("U04U05U06U07U08U09", ack && open, "handshake", "client %u: no %s%s", id, ack ? "open answer" : "acknowledge", closed() ? " (closed)" : "");
        if (!open) throw vh::StopCase();
    }
};

inline Sys::Sys(Rng& g) : rng(g), w(g), r0(w), r1(w), r2(w)
{
    shared = g.chance(40);
    wallOn = true;
    wallBase = (int64_t)(g.chance(50) ? 1700000000 + g.below(400000000) : g.below(4102444800ull)) * 1000000 + g.below(1000000);
    auto& a = r0; auto& b = shared ? r0 : r1; auto& c = shared ? r0 : r2;
    w.comps[CompIds::compUaTransport] = &a;
    w.comps[CompIds::compUaSecChannel] = &b;
    w.comps[CompIds::compUaService] = &c;
    w.onOther = [this](rx::MsgInterface const& m)
    {
        auto id = m.getMsgId();
        if (id == MsgIds::uaTransportInitRsp || id == MsgIds::uaSecureChannelInitRsp || id == MsgIds::uaServiceInitRsp) ++initRsp;
        else if (id == MsgIds::uaTransportReleaseRsp || id == MsgIds::uaSecureChannelReleaseRsp || id == MsgIds::uaServiceReleaseRsp) ++relRsp;
        else ++otherMsgs;
    };
    w.onMsg = [this](rx::MsgInterface const& m) { if (m.getMsgId() == MsgUaEncodedMessageReceiveInd::msgId() && m.getCompId() == CompIds::compUaService) onForward(static_cast<MsgUaEncodedMessageReceiveInd const&>(m)); };
    w.onSutSend = [this](ConnPtr c) { auto it = byConn.find(c.get()); if (it != byConn.end()) it->second->pump(); };
    tr = std::make_unique<ua::transport::UaTransportComponent>(w, a);
    sc = std::make_unique<ua::securechannel::UaSecureChannelComponent>(w, b);
    sv = std::make_unique<ua::service::UaServiceComponent>(w, c);
}
inline Sys::~Sys()
{
    w.alive = false; w.onOther = {}; w.onMsg = {}; w.onSutSend = {}; w.onSutClose = {};
    tr.reset(); sc.reset(); sv.reset();
    wallOn = false;
}
inline void Sys::init()
{
    ctl<MsgUaTransportInitReq>(); ctl<MsgUaSecureChannelInitReq>(); ctl<MsgUaServiceInitReq>();
}
inline void Sys::release()
{
    std::vector<int> o{0, 1, 2};
    for (int i = 2; i > 0; --i) std::swap(o[i], o[rng.below(i + 1)]);
    for (int k : o) { if (k == 0) ctl<MsgUaTransportReleaseReq>(); if (k == 1) ctl<MsgUaSecureChannelReleaseReq>(); if (k == 2) ctl<MsgUaServiceReleaseReq>(); }
}
inline Client& Sys::add() { clients.push_back(std::make_unique<Client>(*this, (unsigned)clients.size() + 1)); return *clients.back(); }
inline void Sys::wait(long t)
{
    for (auto& c : clients) if (!c->closed()) t = std::min(t, 29 * SEC - (w.now - c->lastTx));
    if (t > 0) w.advance(t);
}
inline void Sys::onForward(MsgUaEncodedMessageReceiveInd const& m)
{
    ++forwarded;
    vh::count("forwarded");
    auto it = owner.find(m.hdr.secureChannelId);
    if (it == owner.end())
    {
        if (!hostileAllowed) CHK("U05", false, "forward-unknown-channel", "a message was passed on in the name of channel %u, which nobody opened", (unsigned)m.hdr.secureChannelId);
        ++unknownForwards;
        return;
    }
    Client& c = *it->second;
    if (!c.modelled) return;
    while (!c.fwd.empty() && c.fwd.front().optional && c.fwd.front().rid != m.hdr.requestId) c.fwd.pop_front();
    if (c.fwd.empty())
    {
        CHK("U04U05U09", false, "forward-unexpected", "channel %u of client %u: a message (request id %u) was passed on that must not be", (unsigned)m.hdr.secureChannelId, c.id, (unsigned)m.hdr.requestId);
        throw vh::StopCase();
    }
    auto f = c.fwd.front(); c.fwd.pop_front();
    Bytes got(m.data, m.data + m.length);
    CHK("U04U05U09", m.hdr.requestId == f.rid && got == f.payload, "forward-content", "client %u: message with request id %u (%zu bytes) was passed on as request id %u with %zu bytes%s", c.id, f.rid, f.payload.size(), (unsigned)m.hdr.requestId, got.size(), got == f.payload ? "" : ", content differs");
    if (got != f.payload || m.hdr.requestId != f.rid) throw vh::StopCase();
}
} // namespace uw

// Modbus subsystem under a virtual-time world. Properties M01..M07.
#include "vworld.hpp"
#include "ModbusComponent.hpp"
#include "Modbus.hpp"
#include "MsgStore.hpp"
#include "MsgModbusInitReq.hpp"
#include "MsgModbusInitRsp.hpp"
#include "MsgModbusReleaseReq.hpp"
#include "MsgModbusReleaseRsp.hpp"
#include "MsgModbusConfigReq.hpp"
#include "MsgModbusConfigRsp.hpp"
#include "MsgModbusClientAduReq.hpp"
#include "MsgModbusClientAduRsp.hpp"
#include "MsgModbusAduReq.hpp"
#include "MsgModbusAduRsp.hpp"

using namespace app;
using namespace vw;
using vh::Rng;
using vh::Bytes;
namespace rx = app::reactor;

namespace
{
// A finding counts for the property being decided only when it is a symptom of that property.
bool mine(char const* props) { return strstr(props, vh::ctx.prop.c_str()) != nullptr; }
#define CHK(props, cond, key, ...) do { if (mine(props)) VCHECK(cond, key, __VA_ARGS__); } while (0)

constexpr long MS = 1000, SEC = 1000000;

struct Harness
{
    Rng& rng;
    World w;
    VReactor r;
    std::unique_ptr<modbus::ModbusComponent> comp;
    unsigned initRsp = 0, relRsp = 0;
    struct CfgRsp { std::vector<std::pair<uint32_t, bool>> items; };
    std::vector<CfgRsp> cfgRsps;
    std::function<void(MsgModbusClientAduRsp const&)> onClientRsp;
    std::function<void(MsgModbusAduReq const&)> onAduReq;

    explicit Harness(Rng& g) : rng(g), w(g), r(w)
    {
        w.comps[CompIds::compModbus] = &r;
        w.onOther = [this](rx::MsgInterface const& m)
        {
            if (m.getCompId() != CompIds::compController) { CHK("M01M04M07", false, "msg-to-stranger", "message %u for component %u", (unsigned)m.getMsgId(), (unsigned)m.getCompId()); return; }
            if (m.size() > rx::maxMsgSize) { vh::viol("oversize-message", vh::fmt("message of %zu bytes", m.size())); return; }
            // exact-size copy: the receiver sees what was sent
            std::unique_ptr<char[]> c(new char[m.size()]);
            memcpy(c.get(), (void const*)&m, m.size());
            auto& x = *reinterpret_cast<rx::MsgInterface const*>(c.get());
            switch ((unsigned)x.getMsgId())
            {
            case MsgIds::modbusInitRsp: ++initRsp; break;
            case MsgIds::modbusReleaseRsp: ++relRsp; break;
            case MsgIds::modbusConfigRsp:
            {
                auto& m = static_cast<MsgModbusConfigRsp const&>(x);
                CfgRsp c;
                for (unsigned i = 0; i < m.numItems; ++i) c.items.emplace_back(m.items[i].id, m.items[i].status == MsgStatus::success);
                cfgRsps.push_back(c);
                break;
            }
            case MsgIds::modbusClientAduRsp: vh::count("client_responses"); if (onClientRsp) onClientRsp(static_cast<MsgModbusClientAduRsp const&>(x)); break;
            case MsgIds::modbusAduReq: vh::count("server_requests_forwarded"); if (onAduReq) onAduReq(static_cast<MsgModbusAduReq const&>(x)); break;
            default: vh::viol("unexpected-message", vh::fmt("message %u", (unsigned)x.getMsgId()));
            }
        };
        comp = std::make_unique<modbus::ModbusComponent>(w, r);
    }
    ~Harness() { w.alive = false; w.onOther = {}; w.onSutSend = {}; w.onSutClose = {}; comp.reset(); }

    void init(unsigned servers, unsigned clients)
    {
        rx::MsgStore<MsgModbusInitReq> st;
        st.getMsg().maxNumServers = servers;
        st.getMsg().maxNumClients = clients;
        w.send(st.getMsg());
    }
    void release()
    {
        rx::MsgStore<MsgModbusReleaseReq> st;
        w.send(st.getMsg());
    }
    struct Item { uint32_t id; unsigned mode; rx::LinkAddr addr; };
    void config(std::vector<Item> const& items)
    {
        rx::MsgStore<MsgModbusConfigReq> st;
        auto& m = st.getMsg();
        m.numItems = items.size();
        for (size_t i = 0; i < items.size(); ++i)
        {
            m.items[i].id = items[i].id;
            m.items[i].mode = (ModbusConfig::Mode)items[i].mode;
            m.items[i].addr = items[i].addr;
        }
        w.send(m);
    }
};

Bytes randBytes(Rng& g, size_t n)
{
    Bytes b(n);
    unsigned mode = g.below(4);
    for (auto& x : b) x = mode == 0 ? 0xff : mode == 1 ? 0 : (uint8_t)g.next();
    return b;
}

// ------------------------------------------------------------------ reference protocol
enum { bad = 0, good = 1, either = 2 };

void be16(Bytes& b, unsigned v) { b.push_back(v >> 8); b.push_back(v & 0xff); }

struct Req
{
    uint32_t client = 0;
    unsigned tid = 0, func = 0, addr = 0, start = 0, items = 0;
    Bytes data;
    int kind = bad;
    Bytes frame;       // prescribed frame
};

void classify(Req& q)
{
    q.kind = bad;
    q.frame.clear();
    if (q.addr > 247) return;
    Bytes pdu;
    pdu.push_back(q.func);
    be16(pdu, q.start);
    switch (q.func)
    {
    case 1: case 2:
        if (q.items > 2008) return;
        q.kind = (q.items == 0 || q.items > 2000) ? either : good;
        be16(pdu, q.items);
        break;
    case 3: case 4:
        if (q.items > 125) return;
        q.kind = q.items == 0 ? either : good;
        be16(pdu, q.items);
        break;
    case 5:
        if (q.items != 0 || q.data.size() != 2) return;
        if (q.data[1] != 0 || (q.data[0] != 0 && q.data[0] != 0xff)) return;
        q.kind = good;
        pdu.push_back(q.data[0]); pdu.push_back(q.data[1]);
        break;
    case 6:
        if (q.items != 0 || q.data.size() != 2) return;
        q.kind = good;
        pdu.push_back(q.data[1]); pdu.push_back(q.data[0]);
        break;
    case 16:
        if (q.data.size() != 2 * q.items || q.items > 123) return;
        q.kind = q.items == 0 ? either : good;
        be16(pdu, q.items);
        pdu.push_back(q.data.size());
        for (size_t i = 0; i < q.data.size(); i += 2) { pdu.push_back(q.data[i + 1]); pdu.push_back(q.data[i]); }
        break;
    default: return;
    }
    if (q.func <= 4 && !q.data.empty()) q.kind = either; // superfluous data: may be refused or ignored
    be16(q.frame, q.tid & 0xffff);
    be16(q.frame, 0);
    be16(q.frame, pdu.size() + 1);
    q.frame.push_back(q.addr);
    q.frame.insert(q.frame.end(), pdu.begin(), pdu.end());
}

Req genReq(Rng& g, uint32_t client, unsigned tid, unsigned malformedPct)
{
    Req q;
    q.client = client;
    q.tid = tid;
    q.func = g.pick<unsigned>({1, 2, 3, 4, 5, 6, 16, 3, 4, 16});
    q.addr = g.chance(20) ? g.pick<unsigned>({0, 1, 247, 127, 128, 246}) : g.below(248);
    q.start = g.chance(30) ? g.pick<unsigned>({0, 0xffff, 0x00ff, 0xff00, 0x8000, 0x7fff}) : g.below(65536);
    auto size = [&](unsigned max) { return g.chance(30) ? g.pick<unsigned>({1, max, max - 1, 8, 9, 7}) : 1 + g.below(max); };
    switch (q.func)
    {
    case 1: case 2: q.items = size(2000); break;
    case 3: case 4: q.items = size(125); break;
    case 5: q.data = {(uint8_t)(g.chance(50) ? 0xff : 0), 0}; break;
    case 6: q.data = randBytes(g, 2); break;
    case 16: q.items = size(123); q.data = randBytes(g, 2 * q.items); break;
    }
    if (g.chance(malformedPct))
    {
        switch (g.below(8))
        {
        case 0: q.addr = g.pick<unsigned>({248, 255, 256, 0x100, 0xffff, 0x8001}); break;
        case 1: q.items = g.pick<unsigned>({126, 127, 2001, 2009, 2016, 65535, 0, 124, 128, 0x8000}); break;
        case 2: q.data = randBytes(g, g.below(262)); break;
        case 3: q.func = g.pick<unsigned>({0, 7, 15, 17, 99, 0x83, 0x8f, 0xff, 22, 23}); break;
        case 4: q.data = randBytes(g, g.pick<unsigned>({1, 3, 0, 2, 4})); break;
        case 5: if (q.func == 5) q.data = randBytes(g, 2); else q.items += g.pick<unsigned>({1, 2, 256}); break;
        case 6: q.items = 124 + g.below(10); q.data = randBytes(g, 2 * q.items); q.func = 16; break;
        case 7: q.data = randBytes(g, g.pick<unsigned>({261, 300, 512, 1000})); break;
        }
    }
    if (g.chance(5)) { q.func = g.pick<unsigned>({1, 2, 3, 4, 16}); q.items = 0; q.data.clear(); }
    classify(q);
    return q;
}

// ------------------------------------------------------------------ client side
struct Pending
{
    Req q;
    long submitted = 0, sentAt = -1;
    unsigned ahead = 0;
    bool faulted = false;       // something went wrong on the connection while it was pending
    bool mustSend = false;
    Bytes reply;                // bytes that arrived after the request was sent
    long lastByteAt = -1;
};

struct Client
{
    uint32_t id = 0;
    rx::LinkAddr addr{};
    std::deque<std::shared_ptr<Pending>> pending;     // not yet answered, in submission order
    std::shared_ptr<Pending> inFlight;
    ConnPtr conn;                 // latest connection attempt
    Bytes partial;                // bytes sent, not yet a whole frame
    long lastFail = -1;           // last time a connection (attempt) ended
    unsigned attempts = 0;
    bool retryExpected = false;
};

enum class Mode { normal, noThrow };

struct ClientRun
{
    Harness h;
    Rng& rng;
    World& w;
    std::vector<Client> clients;
    unsigned nextTid = 0;
    std::map<std::pair<uint32_t, unsigned>, unsigned> submitted, answered;
    unsigned connectFaultPct = 0, replyFaultPct = 0, sendFaultPct = 0;
    bool dupTids = false, quickReplies = false;
    uint64_t shape = 1;
    unsigned unknownSubmitted = 0;

    Client* byAddr(rx::LinkAddr const& a)
    {
        for (auto& c : clients) if (memcmp(c.addr.data, a.data, 6) == 0) return &c;
        return nullptr;
    }
    Client* byConn(ConnPtr k) { return byAddr(k->addr); }

    static bool up(Client const& c) { return c.conn && c.conn->established && !c.conn->reset && !c.conn->peerClosed && !c.conn->sutClosed && c.conn->link && !c.conn->link->evOut; }

    void fault(Client& c) { for (auto& p : c.pending) p->faulted = true; }

    ClientRun(Rng& g, unsigned n) : h(g), rng(g), w(h.w)
    {
        clients.resize(n);
        for (unsigned i = 0; i < n; ++i)
        {
            clients[i].id = i;
            clients[i].addr = mkAddr(10, rng.below(256), i, 200 + i, 60000 + i);
        }
        nextTid = rng.chance(50) ? rng.below(60000) : 0;
        h.onClientRsp = [this](MsgModbusClientAduRsp const& m) { onRsp(m); };
        w.onConnect = [this](rx::LinkAddr const& a) { return onConnect(a); };
        w.onOpened = [this](ConnPtr k) { if (auto* c = byConn(k)) c->conn = k; };
        w.onSutSend = [this](ConnPtr k) { onSend(k); };
        w.onSutClose = [this](ConnPtr k) { if (auto* c = byConn(k)) if (c->conn == k || !c->conn) { c->lastFail = w.now; fault(*c); vh::trace(vh::fmt("%ld client %u closes its link", w.now, c->id)); } };
        w.failSend = [this]{ bool f = rng.chance(sendFaultPct); if (f) { vh::count("faults_send"); for (auto& c : clients) fault(c); } return f; };
    }

    void setup()
    {
        h.init(rng.below(3), clients.size());
        w.settle();
        std::vector<Harness::Item> items;
        for (auto& c : clients) items.push_back({c.id, 1, c.addr});
        h.config(items);
        w.settle();
    }

    ConnectPlan onConnect(rx::LinkAddr const& a)
    {
        auto* c = byAddr(a);
        if (!c) { CHK("M06", false, "connect-to-stranger", "client connects to an address it was not given"); return ConnectPlan::refuse; }
        unsigned live = 0;
        for (auto& k : w.conns) if (k->bySut && memcmp(k->addr.data, a.data, 6) == 0 && !k->sutClosed) ++live;
        CHK("M06", live == 0, "two-connections", "client %u opens a connection while %u are open", c->id, live);
        vh::count("connects");
        if (c->attempts)
            CHK("M06", c->lastFail >= 0 && w.now - c->lastFail >= 499 * MS, "no-backoff", "client %u reconnects %ld us after its connection ended", c->id, w.now - c->lastFail);
        c->attempts++;
        c->lastFail = -1;
        c->partial.clear();
        auto plan = ConnectPlan::accept;
        if (rng.chance(connectFaultPct)) plan = rng.pick({ConnectPlan::refuse, ConnectPlan::blackhole, ConnectPlan::throwNow, ConnectPlan::refuse});
        if (plan != ConnectPlan::accept) vh::count("faults_connect");
        vh::trace(vh::fmt("%ld client %u connect plan %d", w.now, c->id, (int)plan));
        shape = vh::hashMix(shape, 100 + (int)plan);
        if (plan == ConnectPlan::throwNow) c->lastFail = w.now;
        return plan;
    }

    void refreshConns()
    {
        for (auto& c : clients)
        {
            for (auto it = w.conns.rbegin(); it != w.conns.rend(); ++it)
                if ((*it)->bySut && memcmp((*it)->addr.data, c.addr.data, 6) == 0) { c.conn = *it; break; }
        }
    }

    // ---- wire ----
    void onSend(ConnPtr k)
    {
        auto* c = byConn(k);
        if (!c) return;
        c->conn = k;
        size_t n = k->sendSizes.back();
        c->partial.insert(c->partial.end(), k->fromSut.end() - n, k->fromSut.end());
        while (c->partial.size() >= 6 && c->partial.size() >= 6u + c->partial[4] * 256u + c->partial[5])
        {
            size_t len = 6u + c->partial[4] * 256u + c->partial[5];
            Bytes f(c->partial.begin(), c->partial.begin() + len);
            c->partial.erase(c->partial.begin(), c->partial.begin() + len);
            onFrame(*c, f);
        }
        CHK("M02", c->partial.size() < 260, "wire-frame", "client %u: bytes on the wire are no frame: %s", c->id, vh::hex(c->partial).c_str());
        if (!c->partial.empty() && mine("M02"))
            // whatever is on the wire must be the beginning of the frame of the next request
            w.at(0, [this, c]{ CHK("M02", c->partial.empty(), "wire-frame", "client %u: incomplete frame on the wire: %s", c->id, vh::hex(c->partial).c_str()); });
    }
    void onFrame(Client& c, Bytes const& f)
    {
        vh::count("frames_sent");
        vh::trace(vh::fmt("%ld client %u sends %s", w.now, c.id, vh::hex(f).c_str()));
        CHK("M02", !c.inFlight, "two-in-flight", "client %u sends a request while transaction %u is outstanding", c.id, c.inFlight ? c.inFlight->q.tid : 0);
        std::shared_ptr<Pending> hit;
        for (auto& p : c.pending)
        {
            if (p->sentAt >= 0) continue;
            if (p->q.kind != bad && p->q.frame == f) { hit = p; break; }
            if (p->q.kind == good)
            {
                bool later = false;
                for (auto& x : c.pending) later = later || (x->sentAt < 0 && x->q.kind != bad && x->q.frame == f);
                CHK("M02", false, later ? "order" : "wire-frame", "client %u sends %s but the next request prescribes %s", c.id, vh::hex(f).c_str(), vh::hex(p->q.frame).c_str());
                throw vh::StopCase();
            }
        }
        CHK("M02", hit != nullptr, "wire-frame", "client %u sends %s which no pending request prescribes", c.id, vh::hex(f).c_str());
        if (!hit) throw vh::StopCase();
        hit->sentAt = w.now;
        hit->reply.clear();
        c.inFlight = hit;
        vh::distinct("request_frames", vh::hashMix(vh::hashMix(hit->q.func, hit->q.items), hit->q.data.size()));
        planReply(c, hit);
    }

    // ---- peer ----
    void deliver(Client& c, ConnPtr k, Bytes const& b)
    {
        if (b.empty() || k->sutClosed || k->reset || k->peerClosed) return;
        if (c.inFlight && c.conn == k) { c.inFlight->reply.insert(c.inFlight->reply.end(), b.begin(), b.end()); c.inFlight->lastByteAt = w.now; }
        vh::count("reply_bytes", b.size());
        vh::trace(vh::fmt("%ld peer of %u delivers %s", w.now, c.id, vh::hex(b).c_str()));
        w.peerSend(k, b);
    }
    Bytes properReply(Req const& q, bool exception)
    {
        Bytes pdu;
        pdu.push_back(q.func);
        if (exception) { pdu[0] |= 0x80; pdu.push_back(rng.pick<uint8_t>({1, 2, 3, 4, 5, 6, 7, 8, 10, 11})); }
        else switch (q.func)
        {
        case 1: case 2: { size_t n = (q.items + 7) / 8; pdu.push_back(n); auto d = randBytes(rng, n); pdu.insert(pdu.end(), d.begin(), d.end()); break; }
        case 3: case 4: { size_t n = q.items * 2; pdu.push_back(n); auto d = randBytes(rng, n); pdu.insert(pdu.end(), d.begin(), d.end()); break; }
        default: { Bytes const& f = q.frame; pdu.insert(pdu.end(), f.begin() + 8, f.begin() + 12); }
        }
        Bytes r;
        be16(r, q.tid & 0xffff);
        be16(r, 0);
        be16(r, pdu.size() + 1);
        r.push_back(q.addr);
        r.insert(r.end(), pdu.begin(), pdu.end());
        return r;
    }
    void planReply(Client& c, std::shared_ptr<Pending> p)
    {
        ConnPtr k = c.conn;
        auto* cp = &c;
        Bytes r = properReply(p->q, rng.chance(15));
        long delay = rng.chance(30) ? 0 : rng.chance(70) ? rng.below(200 * MS) : rng.below(4800 * MS);
        if (quickReplies) delay = 0;
        unsigned kind = 0;
        if (rng.chance(replyFaultPct))
        {
            kind = 1 + rng.below(16);
            vh::count("faults_reply");
            p->faulted = true;
            for (auto& x : c.pending) x->faulted = true;
        }
        shape = vh::hashMix(shape, kind * 32 + p->q.func);
        vh::distinct("reply_kinds", kind * 256 + p->q.func);
        switch (kind)
        {
        case 1: r.clear(); break;                                       // silence
        case 2: r[rng.below(r.size())] ^= 1 << rng.below(8); break;     // bit error
        case 3: r.resize(rng.below(r.size())); break;                   // truncated
        case 4: { auto x = randBytes(rng, 1 + rng.below(40)); r.insert(r.end(), x.begin(), x.end()); break; }
        case 5: { Bytes x = r; r.insert(r.end(), x.begin(), x.end()); break; }  // duplicated
        case 6: r = randBytes(rng, 1 + rng.below(600)); break;          // garbage
        case 7: delay = 5 * SEC + 3 * MS + rng.below(3 * SEC); break;   // late
        case 8: r[0] ^= 0x40; break;                                    // other transaction
        case 9: r[6] ^= 0x01; break;                                    // other unit
        case 10: r[7] = rng.pick<uint8_t>({1, 2, 3, 4, 5, 6, 16, 0x81, 0x83, 0x8f, 0x90, 0xff, 0}); break;
        case 11: { unsigned n = rng.pick<unsigned>({0, 1, 2, 3, 254, 253, 255, 300, 511, 65535}); r[4] = n >> 8; r[5] = n; break; }
        case 12: r[2 + rng.below(2)] = 1 + rng.below(255); break;       // protocol id
        case 13: if (r.size() > 8) r[8] = rng.pick<uint8_t>({0, 1, 2, 3, 250, 251, 252, 255, (uint8_t)(r[8] + 2), (uint8_t)(r[8] + 1)}); break;
        case 14:                                                        // consistent frame with another amount of data
        {
            size_t n = rng.below(260);
            r.resize(8); r.push_back(n); auto x = randBytes(rng, n & 0xff); r.insert(r.end(), x.begin(), x.end());
            r[4] = (r.size() - 6) >> 8; r[5] = r.size() - 6;
            break;
        }
        case 15: case 16:                                               // connection ends at this point
        {
            bool rst = kind == 15;
            size_t cut = rng.below(r.size() + 1);
            Bytes part(r.begin(), r.begin() + cut);
            w.at(delay, [this, cp, k, part, rst]{
                deliver(*cp, k, part);
                if (rst) w.peerReset(k); else w.peerClose(k);
                fault(*cp);
                vh::count(rst ? "faults_reset" : "faults_close");
                vh::trace(vh::fmt("%ld peer of %u %s", w.now, cp->id, rst ? "resets" : "closes"));
            });
            return;
        }
        }
        // segmentation
        std::vector<Bytes> parts;
        if (rng.chance(50) || r.size() < 2) parts.push_back(r);
        else if (rng.chance(20)) for (auto b : r) parts.push_back({b});
        else
        {
            size_t off = 0;
            while (off < r.size()) { size_t n = 1 + rng.below(std::min<size_t>(r.size() - off, 1 + rng.below(20) * 10)); parts.push_back(Bytes(r.begin() + off, r.begin() + off + n)); off += n; }
        }
        long t = delay;
        long gap = rng.chance(60) ? 0 : rng.below(std::max<long>(1, std::min<long>(50 * MS, (4900 * MS - delay) / (long)parts.size())));
        if (kind == 7 || quickReplies) gap = 0;
        for (auto& s : parts)
        {
            w.at(t, [this, cp, k, s]{ deliver(*cp, k, s); });
            t += gap;
        }
        vh::count("segments", parts.size());
    }
    void stray(Client& c)
    {
        if (!up(c)) return;
        Bytes b;
        // replies nobody waits for, including a perfect reply to a request that will be made next
        if (rng.chance(50)) b = randBytes(rng, 1 + rng.below(700));
        else
        {
            Req q = genReq(rng, c.id, rng.chance(70) ? nextTid + rng.below(2) : nextTid ? nextTid - 1 : 0, 0);
            b = properReply(q, rng.chance(20));
            if (rng.chance(30)) b.resize(rng.below(b.size()) + 1);
        }
        if (c.inFlight) { fault(c); }
        vh::count("stray_bytes", b.size());
        deliver(c, c.conn, b);
    }

    // ---- requests ----
    void submit(std::vector<Req> const& qs)
    {
        rx::MsgStore<MsgModbusClientAduReq> st;
        auto& m = st.getMsg();
        m.numItems = qs.size();
        for (size_t i = 0; i < qs.size(); ++i)
        {
            auto& it = m.item(i);
            auto& q = qs[i];
            it.clientId = q.client; it.transactId = q.tid; it.func = (ModbusFunction)q.func; it.addr = q.addr;
            it.startItem = q.start; it.numItems = q.items; it.numBytes = q.data.size();
            if (!q.data.empty()) memcpy(it.data, q.data.data(), q.data.size());
        }
        for (auto& q : qs)
        {
            submitted[{q.client, q.tid}]++;
            vh::count("requests");
            vh::trace(vh::fmt("%ld submit client %u tid %u func %u unit %u start %u items %u bytes %zu kind %d", w.now, q.client, q.tid, q.func, q.addr, q.start, q.items, q.data.size(), q.kind));
            if (q.client < clients.size())
            {
                auto& c = clients[q.client];
                auto p = std::make_shared<Pending>();
                p->q = q;
                p->submitted = w.now;
                p->ahead = c.pending.size();
                p->mustSend = q.kind == good && up(c) && c.pending.size() < 60;
                c.pending.push_back(p);
            }
            else ++unknownSubmitted;
        }
        w.send(m);
    }

    void onRsp(MsgModbusClientAduRsp const& m)
    {
        bool ok = m.status == MsgStatus::success;
        vh::trace(vh::fmt("%ld response client %u tid %u status %d error %d bytes %u", w.now, m.clientId, m.transactId, (int)m.status, (int)m.error, m.numBytes));
        auto key = std::make_pair((uint32_t)m.clientId, (unsigned)m.transactId);
        unsigned a = ++answered[key];
        auto it = submitted.find(key);
        CHK("M01", it != submitted.end(), "response-unasked", "response for client %u transaction %u which was never made", m.clientId, m.transactId);
        if (it == submitted.end()) throw vh::StopCase();
        CHK("M01", a <= it->second, "response-twice", "client %u transaction %u answered %u times", m.clientId, m.transactId, a);
        if (m.clientId >= clients.size())
        {
            CHK("M01M03", !ok && m.numBytes == 0, "success-without-reply", "request of an unknown client reported as successful");
            return;
        }
        auto& c = clients[m.clientId];
        // which pending request is it? the one in flight if ids agree, else the first with that id (a full queue answers the newest)
        std::shared_ptr<Pending> p;
        if (dupTids && !ok)   // a request that is refused at once is answered before the older ones with the same id
            for (auto& x : c.pending) if (x->q.tid == m.transactId && x->submitted == w.now && x->sentAt < 0) p = x;
        if (!p && c.inFlight && c.inFlight->q.tid == m.transactId) p = c.inFlight;
        if (!p) for (auto& x : c.pending) if (x->q.tid == m.transactId) { p = x; if (x->sentAt < 0 && x->q.kind == bad) break; }
        if (!p) return;   // reported above
        c.pending.erase(std::find(c.pending.begin(), c.pending.end(), p));
        CHK("M06", w.now - p->submitted <= (long)(p->ahead + 1) * (5 * SEC + 20 * MS) + SEC, "slow-answer", "client %u transaction %u answered after %ld us with %u requests ahead", m.clientId, m.transactId, w.now - p->submitted, p->ahead);
        bool wasSent = c.inFlight == p;
        if (wasSent) c.inFlight.reset();
        if (p->mustSend && !p->faulted && !wasSent && !dupTids)
            CHK("M02", false, "not-sent", "client %u transaction %u is well-formed and connected but was answered without being sent (status %d)", m.clientId, m.transactId, (int)m.status);
        judge(c, *p, wasSent, m);
    }

    void judge(Client& c, Pending const& p, bool wasSent, MsgModbusClientAduRsp const& m)
    {
        bool ok = m.status == MsgStatus::success;
        auto& q = p.q;
        auto& R = p.reply;
        // reference interpretation of the bytes that arrived since the request was sent
        bool match = false, exception = false, strict = false, trailing = false;
        Bytes val;
        unsigned code = 0;
        if (wasSent && R.size() >= 6)
        {
            size_t len = 6u + R[4] * 256u + R[5];
            if (len < 260 && R.size() >= len && len >= 8 + 1)
            {
                trailing = R.size() > len;
                bool hdr = R[0] * 256u + R[1] == q.tid && R[2] == 0 && R[3] == 0 && R[6] == q.addr;
                if (hdr && R[7] == (q.func | 0x80u) && len == 9 && R[8] != 0) { match = exception = strict = true; code = R[8]; }
                else if (hdr && R[7] == q.func)
                {
                    if (q.func <= 4)
                    {
                        unsigned n = R[8];
                        if (len == 9u + n && (q.func <= 2 || n % 2 == 0))
                        {
                            match = true;
                            strict = n == (q.func <= 2 ? (q.items + 7) / 8 : q.items * 2);
                            val.assign(R.begin() + 9, R.begin() + len);
                            if (q.func >= 3) for (unsigned i = 0; i < n; i += 2) std::swap(val[i], val[i + 1]);
                        }
                    }
                    else if (len == 12)
                    {
                        match = true;
                        strict = std::equal(R.begin() + 8, R.begin() + 12, q.frame.begin() + 8);
                        if (q.func == 5) val = {R[10], R[11]};
                        if (q.func == 6) val = {R[11], R[10]};
                    }
                }
            }
        }
        vh::distinct("outcomes", vh::hashMix(q.func, ok * 8 + match * 4 + exception * 2 + strict));
        vh::count(ok ? (exception ? "outcome_exception" : "outcome_success") : "outcome_error");
        if (ok)
        {
            CHK("M03", wasSent, "success-without-reply", "client %u transaction %u reported successful but was never sent", c.id, q.tid);
            CHK("M03", !wasSent || match, "success-without-reply", "client %u transaction %u reported successful on reply %s", c.id, q.tid, vh::hex(R).c_str());
            if (match && exception)
                CHK("M03", (unsigned)(uint8_t)m.error == code && m.numBytes == 0, "exception-code", "client %u transaction %u: exception %u reported as error %u with %u bytes", c.id, q.tid, code, (unsigned)m.error, m.numBytes);
            else if (match)
            {
                CHK("M03", m.error == ModbusError::noerror, "exception-code", "client %u transaction %u: normal reply reported with exception %u", c.id, q.tid, (unsigned)m.error);
                CHK("M03", m.numBytes == val.size() && memcmp(m.data, val.data(), val.size()) == 0, "values", "client %u transaction %u: reply %s reported as %u bytes %s", c.id, q.tid, vh::hex(R).c_str(), m.numBytes, vh::hex(Bytes(m.data, m.data + m.numBytes)).c_str());
            }
        }
        else
        {
            CHK("M03", m.numBytes == 0, "error-with-data", "client %u transaction %u: error response carries %u bytes", c.id, q.tid, m.numBytes);
            bool linkOk = c.conn && !c.conn->reset && !c.conn->peerClosed && !c.conn->sutClosed;
            if (wasSent && match && strict && !trailing && linkOk && p.lastByteAt - p.sentAt < 4950 * MS && q.kind == good)
                CHK("M03", false, "good-reply-rejected", "client %u transaction %u: correct reply %s reported as error", c.id, q.tid, vh::hex(R).c_str());
        }
    }

    // ---- closing: everything must be answered, every client must serve again ----
    void finish(bool probe)
    {
        connectFaultPct = replyFaultPct = sendFaultPct = 0;
        // let everything outstanding run out
        for (int i = 0; i < 70; ++i)
        {
            bool any = false;
            for (auto& c : clients) any = any || !c.pending.empty();
            if (!any) break;
            w.advance(6 * SEC);
        }
        w.settle();
        for (auto& s : submitted)
            CHK("M01", answered[s.first] == s.second, "no-response", "client %u transaction %u: %u requests, %u responses", s.first.first, s.first.second, s.second, answered[s.first]);
        for (auto& c : clients) if (!c.pending.empty())
        {
            CHK("M06", false, "never-answered", "client %u transaction %u never answered", c.id, c.pending.front()->q.tid);
            return;
        }
        if (!probe) return;
        // recovered? (bounded: connect time-out + back-off, and one refused attempt that was already under way)
        w.advance(8 * SEC);
        refreshConns();
        for (auto& c : clients)
        {
            CHK("M06", up(c), "not-recovered", "client %u has no connection 8 s after the server became reachable", c.id);
            if (!up(c)) continue;
            vh::count("recoveries");
            Req q = genReq(rng, c.id, nextTid++ & 0xffff, 0);
            while (q.kind != good) q = genReq(rng, c.id, q.tid, 0);
            auto before = answered[{c.id, q.tid}];
            submitted[{c.id, q.tid}] += 0;
            bool good = false;
            auto old = h.onClientRsp;
            h.onClientRsp = [&](MsgModbusClientAduRsp const& m) { if (m.clientId == c.id && m.transactId == q.tid && m.status == MsgStatus::success) good = true; old(m); };
            submit({q});
            w.advance(6 * SEC);
            h.onClientRsp = old;
            (void)before;
            CHK("M06", good, "not-recovered", "client %u does not serve a request after recovery", c.id);
            CHK("M02", good, "not-sent", "client %u: well-formed request on an idle healthy connection was not served", c.id);
        }
    }
};

struct ClientOpts { unsigned conn = 0, reply = 0, send = 0, malformed = 10, stray = 0; unsigned batchMax = 4; bool overflow = false; bool unknown = false; bool dup = false; };

void clientCase(Rng& g, ClientOpts o, unsigned actions)
{
    ClientRun R(g, 1 + g.below(3));
    R.connectFaultPct = o.conn;
    R.replyFaultPct = o.reply;
    R.dupTids = o.dup;
    R.setup();
    if (g.chance(70)) R.w.advance(g.below(SEC));
    R.sendFaultPct = o.send;
    for (unsigned i = 0; i < actions; ++i)
    {
        R.refreshConns();
        unsigned a = g.below(100);
        if (a < 45)
        {
            std::vector<Req> qs;
            unsigned n = o.overflow && g.chance(30) ? 40 + g.below(40) : 1 + g.below(o.batchMax);
            size_t bytes = 64;
            uint32_t cl = g.below(R.clients.size());
            for (unsigned k = 0; k < n; ++k)
            {
                if (g.chance(40)) cl = g.below(R.clients.size());
                uint32_t id = cl;
                if (o.unknown && g.chance(10)) id = g.pick<uint32_t>({(uint32_t)R.clients.size(), 99, 0xffffffff, 0x80000000});
                unsigned tid = R.nextTid++ & 0xffff;
                if (o.dup && g.chance(40)) tid = g.below(4);
                if (g.chance(3) && !o.dup) tid = 0x10000 + R.nextTid;   // ids beyond the wire's 16 bits still get their answer
                Req q = genReq(g, id, tid, o.malformed);
                if (tid > 0xffff && q.kind == good) q.kind = either;
                size_t sz = (28 + q.data.size() + 31) & ~15u;
                if (bytes + sz > 4000) break;
                bytes += sz;
                qs.push_back(q);
            }
            R.submit(qs);
            if (g.chance(80)) R.w.settle(); else R.w.steps(g.below(4));
        }
        else if (a < 75) R.w.advance(g.chance(50) ? g.below(30 * MS) : g.below(2 * SEC));
        else if (a < 85) R.w.advance(g.below(12 * SEC));
        else if (a < 90 && o.conn)
        {
            auto& c = g.pick(R.clients);
            auto& cc = R.clients[c.id];
            if (R.up(cc)) { R.fault(cc); vh::count("faults_idle_close"); if (g.chance(50)) R.w.peerReset(cc.conn); else R.w.peerClose(cc.conn); R.w.settle(); }
        }
        else if (o.stray)
        {
            R.w.settle();
            R.refreshConns();
            R.stray(R.clients[g.below(R.clients.size())]);
            if (g.chance(70)) R.w.settle();
        }
        else R.w.advance(g.below(100 * MS));
    }
    R.finish(true);
    vh::distinct("histories", vh::hashMix(R.shape, R.w.orderHash));
    vh::maxi("virtual_seconds", R.w.now / SEC);
    if (g.below(2000) == 0) vh::sample(vh::takeTrace().substr(0, 700));
}

// the same for very many requests and reconnections
void clientEndurance(Rng& g, unsigned kind)
{
    unsigned const total = RUNNING_ON_VALGRIND ? 400 : vh::ctx.thorough ? 140000 : 66500;
    ClientRun R(g, kind == 2 ? 2 : 1);
    R.quickReplies = true;
    R.setup();
    R.w.advance(SEC);
    auto trim = [&]
    {
        for (auto& c : R.clients) if (c.conn) { c.conn->fromSut.clear(); c.conn->sendSizes.clear(); c.conn->sendTimes.clear(); }
        vh::clearTrace();
        if (vh::failed()) throw vh::StopCase();
    };
    if (kind == 1)
        for (unsigned i = 0; i < total; ++i)      // reconnections
        {
            R.refreshConns();
            auto& c = R.clients[0];
            CHK("M06", R.up(c), "not-recovered", "client 0 has no connection after %u reconnections", i);
            if (!R.up(c)) throw vh::StopCase();
            if (i % 16 == 0) { Req q = genReq(g, 0, R.nextTid++ & 0xffff, 0); R.submit({q}); if (g.chance(50)) R.w.settle(); }
            R.fault(c);
            if (i % 2) R.w.peerReset(c.conn); else R.w.peerClose(c.conn);
            R.w.settle();
            R.w.advance(1200 * MS);
            R.w.conns.erase(std::remove_if(R.w.conns.begin(), R.w.conns.end(), [](ConnPtr const& k) { return k->sutClosed; }), R.w.conns.end());
            vh::clearTrace();
            if (vh::failed()) throw vh::StopCase();
        }
    else
        for (unsigned i = 0; i < total;)
        {
            std::vector<Req> qs;
            unsigned n = 1 + g.below(4);
            for (unsigned k = 0; k < n; ++k, ++i) qs.push_back(genReq(g, kind == 2 ? g.below(3) : 0, R.nextTid++ & 0xffff, kind == 2 ? 60 : 0));
            R.submit(qs);
            R.w.settle();
            R.w.advance(2 * MS);
            trim();
        }
    R.finish(true);
    vh::count("endurance_runs");
    vh::distinct("histories", vh::hashMix(R.shape, R.w.orderHash));
}

void runClient()
{
    std::string const& p = vh::ctx.prop;
    ClientOpts healthy{0, 0, 0, 15, 0, 4, false, false, false};
    ClientOpts faulty{30, 40, 4, 15, 20, 4, false, true, false};
    ClientOpts replies{2, 70, 0, 5, 30, 2, false, false, false};
    ClientOpts overflow{10, 15, 1, 30, 0, 60, true, true, false};
    ClientOpts storms{75, 30, 10, 10, 5, 3, false, false, false};
    ClientOpts dup{10, 30, 1, 10, 20, 4, false, false, true};
    unsigned f = 1;
    vh::suite("client-healthy", 4000 * f, 60000, [&](Rng& g, uint64_t) { clientCase(g, healthy, 4 + g.below(25)); });
    vh::suite("client-faulty", 6000 * f, 90000, [&](Rng& g, uint64_t) { clientCase(g, faulty, 4 + g.below(30)); });
    if (p != "M06") vh::suite("client-replies", 6000 * f, 100000, [&](Rng& g, uint64_t) { clientCase(g, replies, 4 + g.below(30)); });
    vh::suite("client-overflow", 800 * f, 10000, [&](Rng& g, uint64_t) { clientCase(g, overflow, 3 + g.below(10)); });
    vh::suite("client-storms", p == "M06" ? 6000 : 2000, 60000, [&](Rng& g, uint64_t) { clientCase(g, storms, 4 + g.below(40)); });
    if (p == "M01" || p == "M03") vh::suite("client-dup-ids", 2000, 20000, [&](Rng& g, uint64_t) { clientCase(g, dup, 4 + g.below(30)); });
    vh::suite("client-endurance", 3, 6, [&](Rng& g, uint64_t i) { clientEndurance(g, i % 3); });
}

// ------------------------------------------------------------------ server side
struct SFrame { int kind = bad; unsigned tid = 0, unit = 0, func = 0, start = 0, items = 0; Bytes data; };

SFrame parseRequest(Bytes const& f)
{
    SFrame s;
    if (f.size() < 8) return s;
    s.tid = f[0] * 256u + f[1];
    if (f[2] || f[3]) return s;
    s.unit = f[6];
    if (s.unit > 247) return s;
    s.func = f[7];
    size_t n = f.size() - 6;
    auto u16 = [&](size_t o) { return f[o] * 256u + f[o + 1]; };
    switch (s.func)
    {
    case 1: case 2: case 3: case 4:
        if (n != 6) return s;
        s.start = u16(8); s.items = u16(10);
        if (s.func <= 2) { if (s.items > 2008) return s; s.kind = s.items == 0 || s.items > 2000 ? either : good; }
        else { if (s.items > 125) return s; s.kind = s.items == 0 ? either : good; }
        return s;
    case 5: case 6:
        if (n != 6) return s;
        s.start = u16(8);
        if (s.func == 5) { s.data = {f[10], f[11]}; s.kind = f[11] == 0 && (f[10] == 0 || f[10] == 0xff) ? good : either; }
        else { s.data = {f[11], f[10]}; s.kind = good; }
        return s;
    case 16:
        if (n < 7) return s;
        s.start = u16(8); s.items = u16(10);
        if (f[12] != 2 * s.items || n != 7u + f[12]) return s;
        s.kind = s.items == 0 ? either : good;
        for (size_t i = 13; i + 1 < f.size(); i += 2) { s.data.push_back(f[i + 1]); s.data.push_back(f[i]); }
        return s;
    default: return s;
    }
}

struct SConn
{
    ConnPtr k;
    unsigned server = 0;
    Bytes stream;             // everything the peer sent
    size_t parsed = 0;
    bool dead = false;        // stream contains an impossible length: connection ends there
    std::deque<SFrame> expect;// complete frames not yet forwarded
    bool fault = false;       // reset/closed by the peer
    // request being served
    bool serving = false;
    SFrame cur;
    long servedAt = 0;
    uint32_t sessionId = 0;
    uint64_t serial = 0;
    std::deque<Bytes> replies;  // expected on the wire
    Bytes out;
    size_t checked = 0;
    bool mayClose = false;
    long lastActivity = 0;
    bool hostile = false;
    unsigned forwarded = 0, replied = 0;
};

struct ServerRun
{
    Harness h;
    Rng& rng;
    World& w;
    unsigned nServers;
    std::vector<rx::LinkAddr> addrs;
    std::vector<std::shared_ptr<SConn>> conns;
    std::map<std::pair<uint32_t, uint32_t>, std::shared_ptr<SConn>> bySession;
    struct AppReq { std::shared_ptr<SConn> c; uint32_t serverId, sessionId; SFrame f; long at; uint64_t serial; };
    std::deque<AppReq> app, old;       // unanswered / answered-or-expired requests the application remembers
    unsigned tid = 0;
    bool fewTids = false;              // clients that use the same few transaction ids again and again
    uint64_t serials = 0;
    uint64_t shape = 3;
    char const* tags = "M04M05";

    ServerRun(Rng& g, unsigned n) : h(g), rng(g), w(h.w), nServers(n)
    {
        tid = rng.below(30000);
        h.onAduReq = [this](MsgModbusAduReq const& m) { onReq(m); };
        w.onSutSend = [this](ConnPtr k) { onSend(k); };
        h.init(n, rng.below(3));
        w.settle();
        std::vector<Harness::Item> items;
        for (unsigned i = 0; i < n; ++i) { addrs.push_back(mkAddr(127, 0, 0, 1 + i, 502 + i)); items.push_back({i, 0, addrs[i]}); }
        h.config(items);
        w.settle();
    }
    std::shared_ptr<SConn> open(unsigned server)
    {
        auto k = w.connectTo(addrs[server]);
        CHK("M05", (bool)k, "not-listening", "server %u does not listen", server);
        if (!k) throw vh::StopCase();
        auto c = std::make_shared<SConn>();
        c->k = k;
        c->server = server;
        c->lastActivity = w.now;
        conns.push_back(c);
        vh::count("connections");
        return c;
    }
    void push(SConn& c, Bytes const& b)
    {
        if (b.empty() || c.k->peerClosed || c.k->reset) return;
        if (c.k->sutClosed) return;
        vh::trace(vh::fmt("%ld conn %u peer sends %s", w.now, c.k->id, vh::hex(b, 64).c_str()));
        vh::count("request_bytes", b.size());
        c.stream.insert(c.stream.end(), b.begin(), b.end());
        while (!c.dead && c.stream.size() - c.parsed >= 6)
        {
            size_t len = 6u + c.stream[c.parsed + 4] * 256u + c.stream[c.parsed + 5];
            if (len >= 260) { c.dead = true; break; }
            if (c.stream.size() - c.parsed < len) break;
            Bytes f(c.stream.begin() + c.parsed, c.stream.begin() + c.parsed + len);
            c.parsed += len;
            auto s = parseRequest(f);
            vh::count(s.kind == good ? "frames_valid" : s.kind == bad ? "frames_invalid" : "frames_lenient");
            if (s.kind != bad) c.expect.push_back(s);
        }
        w.peerSend(c.k, b);
    }
    static bool same(SFrame const& s, MsgModbusAduReq const& m)
    {
        return s.tid == m.transactId && s.func == (unsigned)m.func && s.unit == m.addr && s.start == m.startItem && s.items == m.numItems
            && s.data.size() == m.numBytes && memcmp(s.data.data(), m.data, m.numBytes) == 0;
    }
    void onReq(MsgModbusAduReq const& m)
    {
        vh::trace(vh::fmt("%ld forwarded server %u session %u tid %u func %u unit %u start %u items %u bytes %u", w.now, m.serverId, m.sessionId, m.transactId, (unsigned)m.func, m.addr, m.startItem, m.numItems, m.numBytes));
        std::shared_ptr<SConn> hit;
        size_t pos = 0;
        // connections whose session is already known are preferred
        auto known = bySession.find({m.serverId, m.sessionId});
        auto look = [&](std::shared_ptr<SConn> const& c)
        {
            if (hit || c->server != m.serverId || !c->k->link) return;
            for (size_t i = 0; i < c->expect.size(); ++i)
            {
                if (same(c->expect[i], m)) { hit = c; pos = i; return; }
                if (c->expect[i].kind == good) return;   // a valid request must not be skipped
            }
        };
        if (known != bySession.end() && !known->second->k->sutClosed) look(known->second);
        else for (auto& c : conns) look(c);
        if (!hit)
        {
            CHK("M04M05", false, "forwarded-unreceived", "server %u session %u passes on a request that was not the next one received: tid %u func %u unit %u start %u items %u bytes %u", m.serverId, m.sessionId, m.transactId, (unsigned)m.func, m.addr, m.startItem, m.numItems, m.numBytes);
            throw vh::StopCase();
        }
        CHK("M04", !(hit->serving && w.now - hit->servedAt < 4990 * MS), "two-at-once", "connection %u: second request passed on while the first is being served", hit->k->id);
        hit->expect.erase(hit->expect.begin(), hit->expect.begin() + pos + 1);
        hit->serving = true;
        hit->cur = parseCopy(m);
        hit->servedAt = w.now;
        hit->sessionId = m.sessionId;
        hit->serial = ++serials;
        hit->forwarded++;
        bySession[{m.serverId, m.sessionId}] = hit;
        app.push_back({hit, m.serverId, m.sessionId, hit->cur, w.now, hit->serial});
        vh::distinct("forwarded", vh::hashMix(vh::hashMix((unsigned)m.func, m.numItems), m.numBytes));
    }
    static SFrame parseCopy(MsgModbusAduReq const& m)
    {
        SFrame s;
        s.kind = good; s.tid = m.transactId; s.func = (unsigned)m.func; s.unit = m.addr; s.start = m.startItem; s.items = m.numItems;
        s.data.assign(m.data, m.data + m.numBytes);
        return s;
    }
    void onSend(ConnPtr k)
    {
        for (auto& c : conns)
        {
            if (c->k != k) continue;
            Bytes b(k->fromSut.begin() + c->checked, k->fromSut.end());
            vh::trace(vh::fmt("%ld conn %u server sends %s", w.now, k->id, vh::hex(b).c_str()));
            // compare as a stream: replies may be written in pieces
            while (!b.empty())
            {
                if (c->replies.empty()) { CHK("M04", false, "unsolicited-reply", "connection %u receives %s that no answer prescribes", k->id, vh::hex(b).c_str()); throw vh::StopCase(); }
                auto& e = c->replies.front();
                size_t n = std::min(e.size(), b.size());
                if (!std::equal(e.begin(), e.begin() + n, b.begin()))
                { CHK("M04", false, "reply-bytes", "connection %u receives %s, prescribed is %s", k->id, vh::hex(b).c_str(), vh::hex(e).c_str()); throw vh::StopCase(); }
                b.erase(b.begin(), b.begin() + n);
                c->checked += n;
                e.erase(e.begin(), e.begin() + n);
                if (e.empty()) { c->replies.pop_front(); c->replied++; vh::count("replies"); }
            }
            return;
        }
    }
    // ---- application ----
    void sendAnswer(uint32_t serverId, uint32_t sessionId, unsigned t, ModbusError err, MsgStatus st, Bytes const& d)
    {
        rx::MsgStore<MsgModbusAduRsp> s;
        auto& m = s.getMsg();
        m.serverId = serverId; m.sessionId = sessionId; m.transactId = t; m.error = err; m.status = st; m.numBytes = d.size();
        if (!d.empty()) memcpy(m.data, d.data(), d.size());
        vh::trace(vh::fmt("%ld answer server %u session %u tid %u error %d status %d bytes %zu", w.now, serverId, sessionId, t, (int)err, (int)st, d.size()));
        vh::count("answers");
        w.send(m);
    }
    // answers the request being served on the connection; the reply (if one is prescribed) must appear at once
    void answer(AppReq const& q, unsigned oddPct)
    {
        auto c = q.c;
        SFrame const& f = q.f;
        ModbusError err = ModbusError::noerror;
        MsgStatus st = MsgStatus::success;
        Bytes d;
        switch (f.func)
        {
        case 1: case 2: d = randBytes(rng, (f.items + 7) / 8); break;
        case 3: case 4: d = randBytes(rng, f.items * 2); break;
        case 5: case 6: d = f.data; break;
        }
        bool optional = false;
        if (rng.chance(15)) { err = rng.pick({ModbusError::illegalFunction, ModbusError::illegalDataAddress, ModbusError::serverDeviceFailure, ModbusError::gatewayTargetDeviceFailed, ModbusError::memoryParityError, ModbusError::acknowledge}); if (rng.chance(50)) d.clear(); }
        else if (rng.chance(oddPct))
        {
            switch (rng.below(5))
            {
            case 0: st = MsgStatus::error; break;
            case 1: d = randBytes(rng, rng.below(300)); optional = true; break;
            case 2: d = randBytes(rng, rng.pick<unsigned>({250, 251, 252, 253, 255, 256, 258, 260, 261, 300, 1000, 2000})); optional = true; break;
            case 3: d.push_back(7); optional = true; break;
            case 4: d = randBytes(rng, rng.below(4)); optional = true; break;
            }
        }
        bool live = c->serving && c->serial == q.serial && w.now - c->servedAt <= 5 * SEC && c->k->link; // a peer that closed its side may still get the reply
        Bytes r;
        Bytes pdu;
        if (err != ModbusError::noerror) pdu = {(uint8_t)(f.func | 0x80), (uint8_t)err};
        else
        {
            pdu.push_back(f.func);
            switch (f.func)
            {
            case 1: case 2: pdu.push_back(d.size()); pdu.insert(pdu.end(), d.begin(), d.end()); break;
            case 3: case 4: pdu.push_back(d.size()); for (size_t i = 0; i + 1 < d.size(); i += 2) { pdu.push_back(d[i + 1]); pdu.push_back(d[i]); } if (d.size() % 2) pdu.clear(); break;
            case 5: be16(pdu, f.start); if (d.size() == 2 && d[1] == 0 && (d[0] == 0 || d[0] == 0xff)) { pdu.push_back(d[0]); pdu.push_back(d[1]); } else pdu.clear(); break;
            case 6: be16(pdu, f.start); if (d.size() == 2) { pdu.push_back(d[1]); pdu.push_back(d[0]); } else pdu.clear(); break;
            case 16: be16(pdu, f.start); be16(pdu, f.items); break;
            }
        }
        if (st != MsgStatus::success || pdu.size() > 252) pdu.clear();
        if (!pdu.empty() && live)
        {
            be16(r, f.tid); be16(r, 0); be16(r, pdu.size() + 1); r.push_back(f.unit); r.insert(r.end(), pdu.begin(), pdu.end());
            c->replies.push_back(r);
        }
        unsigned before = c->replied;
        sendAnswer(q.serverId, q.sessionId, f.tid, err, st, d);
        if (c->serving && c->serial == q.serial) { c->serving = false; c->lastActivity = w.now; }
        // deliver the message (others may be queued before it)
        w.settle();
        if (!r.empty())
        {
            optional = optional || c->fault || w.now - c->servedAt >= 4990 * MS; // border of the time-out
            if (!optional)
                CHK("M04", c->replied == before + 1, "reply-missing", "connection %u: answer to tid %u was not written to the peer, prescribed is %s", c->k->id, f.tid, vh::hex(r).c_str());
            if (optional && !c->replies.empty() && c->replied == before) c->replies.pop_back();
        }
        shape = vh::hashMix(shape, f.func * 64 + (int)err * 2 + (int)st);
    }
    void wrongAnswer()
    {
        uint32_t srv = rng.below(nServers), ses = rng.below(4);
        unsigned t = rng.below(65536);
        AppReq const* stale = nullptr;
        Bytes d = randBytes(rng, rng.pick<unsigned>({0, 2, 4, 250, 260, 261, 1000}));
        switch (rng.below(6))
        {
        case 0: srv = rng.pick<uint32_t>({nServers, 99, 0xffffffff}); break;
        case 1: ses = rng.pick<uint32_t>({255, 256, 257, 1000, 0xffffffff, 0x80000000, 31, 32}); break;
        case 2: if (!old.empty()) { auto& o = old[rng.below(old.size())]; stale = &o; srv = o.serverId; ses = o.sessionId; t = o.f.tid; } break; // stale
        case 3: if (!app.empty()) { auto& o = app[rng.below(app.size())]; srv = o.serverId; ses = o.sessionId; t = o.f.tid ^ (1 << rng.below(16)); } break;
        case 4: if (!app.empty() && app.size() > 1) { auto& o = app[rng.below(app.size())]; auto& p = app[rng.below(app.size())]; srv = o.serverId; ses = p.sessionId; t = o.f.tid; if (p.c == o.c) t ^= 1; } break;
        default: break;
        }
        w.settle(); // it must not be the answer to a request that is just being read
        // skip if by accident it is the answer some connection waits for
        for (auto& c : conns) if (c->serving && c->server == srv && c->sessionId == ses && c->cur.tid == t && (!stale || stale->serial == c->serial)) return;
        if (stale) for (auto& c : conns) if (c->serving && c->server == srv && c->cur.tid == t) vh::count(c == stale->c ? "stale_same_connection" : "stale_other_connection");
        vh::count("wrong_answers");
        sendAnswer(srv, ses, t, rng.chance(20) ? ModbusError::illegalFunction : ModbusError::noerror, rng.chance(80) ? MsgStatus::success : MsgStatus::error, d);
        w.settle();
    }
    Bytes validFrame()
    {
        Req q = genReq(rng, 0, fewTids ? rng.below(2) : ++tid & 0xffff, 0);
        while (q.kind != good) q = genReq(rng, 0, q.tid, 0);
        return q.frame;
    }
    Bytes invalidFrame()
    {
        Bytes f = validFrame();
        switch (rng.below(7))
        {
        case 0: f[2 + rng.below(2)] = 1 + rng.below(255); break;
        case 1: f[6] = 248 + rng.below(8); break;
        case 2: f[7] = rng.pick<uint8_t>({0, 7, 8, 15, 17, 0x83, 0xff, 23, 43}); break;
        case 3: f[10] = 0xff; if (f[7] >= 5) f[7] = 3, f.resize(12), f[4] = 0, f[5] = 6; break;
        case 4: { auto x = randBytes(rng, 1 + rng.below(5)); f.insert(f.end(), x.begin(), x.end()); f[4] = (f.size() - 6) >> 8; f[5] = f.size() - 6; if (f.size() >= 260) { f.resize(12); f[4] = 0; f[5] = 6; f[7] = 99; } break; }
        case 5: f.resize(6 + rng.below(f.size() - 6)); f[4] = 0; f[5] = f.size() - 6; break;
        case 6: { f.resize(13); f[7] = 16; f[10] = 0; f[11] = 2; f[12] = rng.pick<uint8_t>({0, 2, 3, 5, 255, 4}); size_t n = rng.below(12); auto x = randBytes(rng, n); f.insert(f.end(), x.begin(), x.end()); f[4] = 0; f[5] = f.size() - 6; break; }
        }
        return f;
    }
    Bytes garbage()
    {
        Bytes b = randBytes(rng, 1 + rng.below(rng.chance(20) ? 2000 : 40));
        if (rng.chance(60) && b.size() > 6) { b[2] = b[3] = 0; b[4] = 0; b[5] = rng.below(256); }
        if (rng.chance(30)) { Bytes f = validFrame(); f[rng.below(f.size())] ^= 1 << rng.below(8); b = f; }
        if (rng.chance(30)) { Bytes f = validFrame(); f.resize(rng.below(f.size())); b.insert(b.end(), f.begin(), f.end()); }
        return b;
    }
    void expireApp()
    {
        for (size_t i = 0; i < app.size();)
        {
            if (w.now - app[i].at >= 5 * SEC || app[i].c->k->sutClosed) { old.push_back(app[i]); app.erase(app.begin() + i); }
            else ++i;
        }
        while (old.size() > 30) old.pop_front();
        for (auto& c : conns) if (c->serving && w.now - c->servedAt >= 5 * SEC) c->serving = false;
    }
    void idle(long us) { w.advance(us); expireApp(); }
    // every complete valid frame of a healthy connection has been passed on once its turn came
    void drain()
    {
        for (int i = 0; i < 400; ++i)
        {
            w.settle();
            expireApp();
            if (app.empty())
            {
                bool more = false;
                for (auto& c : conns) if (!c->expect.empty() && c->k->link && !c->fault) more = true;
                if (!more || i > 300) break;
                idle(5100 * MS);
                continue;
            }
            auto q = app.front();
            app.pop_front();
            old.push_back(q);
            answer(q, 0);
        }
        for (auto& c : conns)
        {
            if (c->fault || c->dead || (c->k->sutClosed && c->mayClose)) continue;
            bool goodLeft = false;
            for (auto& e : c->expect) goodLeft = goodLeft || e.kind == good;
            CHK("M04", !goodLeft, "request-lost", "connection %u: %zu complete valid requests were never passed to the application", c->k->id, c->expect.size());
            CHK("M04", !c->k->sutClosed || c->k->closedAt - c->lastActivity >= 30 * SEC, "closed-healthy", "connection %u was closed although it was used correctly", c->k->id);
        }
    }
    unsigned sessionsOpen() { unsigned n = 0; for (auto& c : conns) n += c->k->link != nullptr; return n; }
};

void splitPush(ServerRun& R, SConn& c, Bytes const& b)
{
    Rng& g = R.rng;
    size_t off = 0;
    unsigned mode = g.below(4);
    while (off < b.size())
    {
        size_t n = mode == 0 ? b.size() : mode == 1 ? 1 : 1 + g.below(b.size() - off);
        n = std::min(n, b.size() - off);
        R.push(c, Bytes(b.begin() + off, b.begin() + off + n));
        off += n;
        if (mode != 3 || g.chance(50)) R.w.settle();
        if (g.chance(5)) R.idle(g.below(300 * MS));
    }
}

// many connections, valid traffic (also pipelined and coalesced), answers in any order, wrong/late/duplicate answers
void serverFaithful(Rng& g, bool withInvalid)
{
    ServerRun R(g, 1 + g.below(2));
    R.fewTids = g.chance(40);
    unsigned nc = 1 + g.below(5);
    for (unsigned i = 0; i < nc; ++i) { R.open(g.below(R.nServers)); if (g.chance(50)) R.w.settle(); }
    unsigned acts = 5 + g.below(40);
    for (unsigned i = 0; i < acts; ++i)
    {
        R.expireApp();
        unsigned a = g.below(100);
        auto c = R.conns[g.below(R.conns.size())];
        if (c->k->sutClosed && g.chance(50)) { c = R.open(c->server); R.w.settle(); }
        if (a < 45)
        {
            Bytes b = withInvalid && g.chance(25) ? R.invalidFrame() : R.validFrame();
            while (g.chance(25)) { auto x = withInvalid && g.chance(25) ? R.invalidFrame() : R.validFrame(); b.insert(b.end(), x.begin(), x.end()); }
            splitPush(R, *c, b);
        }
        else if (a < 80) { if (!R.app.empty()) { size_t k = g.below(R.app.size()); auto q = R.app[k]; R.app.erase(R.app.begin() + k); R.old.push_back(q); R.answer(q, withInvalid ? 15 : 5); } }
        else if (a < 88) R.wrongAnswer();
        else if (a < 94) R.idle(g.below(3 * SEC));
        else if (a < 96) R.idle(5100 * MS + g.below(SEC));
        else if (a < 98) { R.w.settle(); R.expireApp(); if (c->k->link) { c->fault = true; if (g.chance(50)) R.w.peerClose(c->k); else R.w.peerReset(c->k); } R.w.settle(); }
        else { auto n = R.open(g.below(R.nServers)); R.w.settle(); }
    }
    R.drain();
    vh::distinct("histories", vh::hashMix(R.shape, R.w.orderHash));
    if (g.below(2000) == 0) vh::sample(vh::takeTrace().substr(0, 700));
}

// hostile peers beside a victim that uses the server correctly; afterwards full capacity must be back
void serverHostile(Rng& g)
{
    ServerRun R(g, 1 + g.below(2));
    auto victim = R.open(0);
    R.w.settle();
    bool crowded = false; // nothing was free when the victim came back
    unsigned acts = 5 + g.below(50);
    bool faults = g.chance(40);
    unsigned fp = 0;
    R.w.failAccept = [&]{ bool f = g.chance(fp); if (f) vh::count("faults_accept"); return f; };
    R.w.failTimer = [&]{ bool f = g.chance(fp); if (f) vh::count("faults_timer"); return f; };
    R.w.failLink = [&]{ bool f = g.chance(fp); if (f) vh::count("faults_link"); return f; };
    std::vector<std::shared_ptr<SConn>> hostile;
    for (unsigned i = 0; i < acts; ++i)
    {
        R.expireApp();
        unsigned a = g.below(100);
        fp = faults ? 25 : 0;
        if (a < 25)
        {
            unsigned n = g.chance(15) ? 20 + g.below(30) : 1 + g.below(3);
            for (unsigned k = 0; k < n; ++k)
            {
                auto c = R.open(g.below(R.nServers));
                c->hostile = true;
                c->mayClose = true;
                hostile.push_back(c);
                if (g.chance(30)) R.push(*c, R.garbage());          // before it is accepted
                if (g.chance(10)) { c->fault = true; R.w.peerReset(c->k); }
            }
            R.w.settle();
        }
        else if (a < 55)
        {
            if (!hostile.empty()) { auto c = g.pick(hostile); splitPush(R, *c, g.chance(50) ? R.garbage() : g.chance(50) ? R.invalidFrame() : R.validFrame()); }
        }
        else if (a < 70)
        {
            if (!hostile.empty()) { auto c = g.pick(hostile); c->fault = true; if (g.chance(50)) R.w.peerClose(c->k); else R.w.peerReset(c->k); R.w.settle(); }
        }
        else if (a < 78) R.wrongAnswer();
        else if (a < 84) { if (!R.app.empty()) { size_t k = g.below(R.app.size()); auto q = R.app[k]; if (q.c != victim) { R.app.erase(R.app.begin() + k); R.old.push_back(q); R.answer(q, 40); } } }
        else if (a < 90) R.idle(g.chance(80) ? g.below(2 * SEC) : 31 * SEC + g.below(6 * SEC));
        // the victim is served like before
        fp = 0;
        R.w.settle();
        R.expireApp();
        if (victim->k->sutClosed)
        {
            CHK("M05", crowded || R.w.now - victim->lastActivity >= 30 * SEC, "victim-closed", "a well-behaved connection was closed after %ld us", R.w.now - victim->lastActivity);
            victim->fault = true;
            crowded = R.h.r.liveLinks >= 31 || R.h.r.liveTimers >= 31;
            victim = R.open(0);
            R.w.settle();
        }
        if (victim->k->link && !victim->k->reset)
        {
            unsigned f0 = victim->forwarded, r0 = victim->replied;
            splitPush(R, *victim, R.validFrame());
            R.w.settle();
            R.expireApp();
            if (victim->k->sutClosed && victim->k->closedAt - victim->lastActivity >= 30 * SEC) continue; // its time ran out halfway through the request
            CHK("M05", victim->forwarded == f0 + 1, "victim-disturbed", "request of a well-behaved connection was not passed on beside hostile ones");
            for (size_t k = 0; k < R.app.size(); ++k) if (R.app[k].c == victim) { auto q = R.app[k]; R.app.erase(R.app.begin() + k); R.answer(q, 0); break; }
            CHK("M05", victim->replied == r0 + 1, "victim-disturbed", "answer to a well-behaved connection was not delivered beside hostile ones");
            vh::count("victim_exchanges");
        }
    }
    // everybody leaves: all connections must be given back, whatever state they were in
    R.w.settle();
    for (auto& c : R.conns) if (!c->k->sutClosed && !c->k->reset)
    {
        c->fault = true;
        unsigned m = g.below(3);
        if (m == 0) R.w.peerClose(c->k); else if (m == 1) R.w.peerReset(c->k);   // the rest just goes silent
    }
    for (int i = 0; i < 4; ++i) { R.w.settle(); R.idle(36 * SEC); }
    R.w.settle();
    unsigned base = R.nServers;
    CHK("M05", R.h.r.liveLinks == 0 && R.h.r.liveTimers == 0, "not-reclaimed", "%u links and %u timers are still held after all connections ended", R.h.r.liveLinks, R.h.r.liveTimers);
    CHK("M05", R.h.r.liveAcceptors == base, "not-listening", "%u of %u listeners left", R.h.r.liveAcceptors, base);
    // capacity: everything the reactor can give (32 links/timers)
    if (mine("M05"))
    {
        std::vector<std::shared_ptr<SConn>> all;
        for (unsigned i = 0; i < 32; ++i) { all.push_back(R.open(g.below(R.nServers))); if (g.chance(30)) R.w.settle(); }
        R.w.settle();
        unsigned served = 0;
        for (auto& c : all)
        {
            unsigned f0 = c->forwarded;
            R.push(*c, R.validFrame());
            R.w.settle();
            if (c->forwarded == f0 + 1) ++served;
        }
        CHK("M05", served == 32, "capacity", "only %u of 32 connections are served after the previous ones ended", served);
        vh::count("capacity_probes");
        // one more has to wait, and gets in when another leaves
        auto extra = R.open(0);
        R.push(*extra, R.validFrame());
        R.w.settle();
        CHK("M05", extra->forwarded == 0, "capacity", "connection beyond the limit");
        auto leave = all[g.below(all.size())];
        leave->fault = true;
        if (g.chance(50)) R.w.peerClose(leave->k); else R.w.peerReset(leave->k);
        R.w.settle();
        R.idle(29 * SEC);
        R.idle(7 * SEC);
        R.w.settle();
        CHK("M05", extra->forwarded == 1, "capacity", "waiting connection is not served after another one left");
    }
    vh::distinct("histories", vh::hashMix(R.shape, R.w.orderHash));
}

// answers that come when the request has timed out or its connection is gone, and somebody else uses the same transaction id
void serverLate(Rng& g)
{
    ServerRun R(g, 1 + g.below(2));
    R.fewTids = true;
    auto a = R.open(0);
    R.w.settle();
    R.push(*a, R.validFrame());
    R.w.settle();
    if (R.app.empty()) { CHK("M04", false, "request-lost", "a request was not passed to the application"); throw vh::StopCase(); }
    auto q = R.app.front();
    R.app.clear();
    bool same = g.chance(50);
    if (same) R.idle(5100 * MS);
    else { a->fault = true; if (g.chance(50)) R.w.peerClose(a->k); else R.w.peerReset(a->k); R.w.settle(); if (!a->k->sutClosed) R.idle(5100 * MS); R.w.settle(); }
    // (connections are numbered from a limited range)
    unsigned n = same ? 1 : 300;
    for (unsigned i = 0; i < n; ++i)
    {
        auto c = same ? a : R.open(0);
        if (!same) R.w.settle();
        unsigned f0 = c->forwarded, r0 = c->replied;
        if (i % 32 == 0 || (i >= 250 && i < 260))
        {
            Bytes f = R.validFrame();
            f[0] = q.f.tid >> 8; f[1] = q.f.tid;
            R.push(*c, f);
            R.w.settle();
            CHK("M04", c->forwarded == f0 + 1, "request-lost", "a request was not passed to the application");
            if (R.app.empty()) throw vh::StopCase();
            auto own = R.app.front();
            R.app.clear();
            // now the answer to the old request: the connection must not get it
            Bytes d;
            switch (q.f.func) { case 1: case 2: d = randBytes(g, (q.f.items + 7) / 8); break; case 3: case 4: d = randBytes(g, q.f.items * 2); break; default: d = q.f.data; break; }
            if (q.f.func == 16) d.clear();
            if (g.chance(50)) { d.clear(); switch (own.f.func) { case 1: case 2: d = randBytes(g, (own.f.items + 7) / 8); break; case 3: case 4: d = randBytes(g, own.f.items * 2); break; case 5: case 6: d = own.f.data; break; default: break; } }
            R.sendAnswer(q.serverId, q.sessionId, q.f.tid, g.chance(20) ? ModbusError::illegalFunction : ModbusError::noerror, g.chance(90) ? MsgStatus::success : MsgStatus::error, d);
            R.w.settle();
            CHK("M04", c->replied == r0, "stale-answer", "a connection got the answer to a request it did not make");
            vh::count("late_answers");
            R.answer(own, 0);
            CHK("M04", c->replied == r0 + 1, "reply-missing", "the answer was lost after an answer to an older request");
        }
        if (!same) { c->fault = true; R.w.peerClose(c->k); R.w.settle(); }
        if (i % 64 == 63) { vh::clearTrace(); if (vh::failed()) throw vh::StopCase(); }
    }
    vh::distinct("histories", vh::hashMix(R.shape, R.w.orderHash));
}

// the same for very many requests and connections
void serverEndurance(Rng& g, unsigned kind)
{
    unsigned const total = RUNNING_ON_VALGRIND ? 400 : vh::ctx.thorough ? 140000 : 66500;
    ServerRun R(g, 1);
    auto exchange = [&](SConn& c, unsigned i)
    {
        unsigned f0 = c.forwarded, r0 = c.replied;
        Bytes f = R.validFrame();
        if (i % 4) R.push(c, f); else splitPush(R, c, f);
        R.w.settle();
        CHK("M04M05", c.forwarded == f0 + 1, "request-lost", "request %u was not passed to the application", i);
        if (R.app.empty()) throw vh::StopCase();
        auto q = R.app.front();
        R.app.clear();
        R.answer(q, 0);
        CHK("M04M05", c.replied == r0 + 1, "reply-missing", "the answer to request %u was not written", i);
        R.old.clear();
        vh::clearTrace();
        if (vh::failed()) throw vh::StopCase();
    };
    if (kind == 0)
    {
        auto c = R.open(0);
        R.w.settle();
        for (unsigned i = 0; i < total; ++i)
        {
            exchange(*c, i);
            c->stream.clear(); c->parsed = 0; c->checked = 0;
            c->k->fromSut.clear(); c->k->sendSizes.clear(); c->k->sendTimes.clear();
        }
    }
    else
        for (unsigned i = 0; i < total; ++i)
        {
            auto c = R.open(0);
            R.w.settle();
            if (i % 16 == 0) exchange(*c, i);
            else if (i % 16 == 5) R.push(*c, R.garbage());
            c->fault = true;
            if (i % 2) R.w.peerClose(c->k); else R.w.peerReset(c->k);
            R.w.settle();
            if (i % 64 == 63) R.idle(40 * SEC);
            R.app.clear(); R.bySession.clear(); R.conns.clear();
            R.w.conns.erase(std::remove_if(R.w.conns.begin(), R.w.conns.end(), [](ConnPtr const& k) { return k->sutClosed; }), R.w.conns.end());
            vh::clearTrace();
            if (vh::failed()) throw vh::StopCase();
        }
    vh::count("endurance_runs");
    vh::distinct("histories", vh::hashMix(R.shape, R.w.orderHash));
}

void runServer()
{
    bool m5 = vh::ctx.prop == "M05";
    vh::suite("server-faithful", m5 ? 2000 : 12000, m5 ? 20000 : 150000, [](Rng& g, uint64_t) { serverFaithful(g, false); });
    vh::suite("server-mixed", m5 ? 4000 : 8000, 100000, [](Rng& g, uint64_t) { serverFaithful(g, true); });
    vh::suite("server-hostile", m5 ? 4000 : 800, m5 ? 50000 : 10000, [](Rng& g, uint64_t) { serverHostile(g); });
    if (!m5) vh::suite("server-late", 400, 4000, [](Rng& g, uint64_t) { serverLate(g); });
    vh::suite("server-endurance", 2, 4, [](Rng& g, uint64_t i) { serverEndurance(g, i % 2); });
}

// ------------------------------------------------------------------ life cycle
void lifecycleCase(Rng& g, unsigned acts)
{
    Harness h(g);
    World& w = h.w;
    bool inited = false;
    unsigned ns = 0, nc = 0;
    unsigned wantInit = 0, wantRel = 0, wantCfg = 0;
    bool limited = g.chance(40);
    if (limited) { h.r.limLinks = g.below(5); h.r.limTimers = g.chance(50) ? 32 : g.below(5); h.r.limAcceptors = g.below(4); }
    // what runs now
    std::map<uint32_t, std::string> servers;
    std::set<uint32_t> clients;
    w.onConnect = [&](rx::LinkAddr const&) { return g.pick({ConnectPlan::accept, ConnectPlan::refuse, ConnectPlan::blackhole, ConnectPlan::throwNow}); };
    h.onClientRsp = [](MsgModbusClientAduRsp const&) {};
    h.onAduReq = [](MsgModbusAduReq const&) {};
    uint64_t shape = 5;
    w.busyAddrs.insert(std::string("\x7f\0\0\x09\x01\x02", 6));
    for (unsigned i = 0; i < acts; ++i)
    {
        if (i % 64 == 63) { vh::clearTrace(); if (vh::failed()) throw vh::StopCase(); }
        unsigned a = g.below(100);
        if (a < 15 || (!inited && a >= 22 && a < 50))
        {
            ns = g.below(5); nc = g.below(5);
            h.init(ns, nc);
            ++wantInit;
            inited = true;
            servers.clear(); clients.clear();
            w.settle();
            CHK("M07", h.initRsp == wantInit, "init-answer", "%u init requests, %u answers", wantInit, h.initRsp);
            CHK("M07", h.r.liveAcceptors == 0 && h.r.liveLinks == 0 && h.r.liveTimers == 0, "init-leak", "initialising leaves %u listeners %u links %u timers of the previous instance", h.r.liveAcceptors, h.r.liveLinks, h.r.liveTimers);
            shape = vh::hashMix(shape, 1);
        }
        else if (a < 30)
        {
            h.release();
            ++wantRel;
            if (!inited) vh::count("releases_uninitialised");
            inited = false;
            servers.clear(); clients.clear();
            if (g.chance(50)) w.settle(); else w.steps(3);
            w.settle();
            CHK("M07", h.relRsp == wantRel, "release-answer", "%u release requests, %u answers", wantRel, h.relRsp);
            CHK("M07", h.r.liveAcceptors == 0 && h.r.liveLinks == 0 && h.r.liveTimers == 0, "release-leak", "after release %u listeners %u links %u timers are held", h.r.liveAcceptors, h.r.liveLinks, h.r.liveTimers);
            for (auto& k : w.conns) CHK("M07", k->sutClosed || (!k->bySut && k->reset), "release-leak", "connection %u is still open after release", k->id);
            shape = vh::hashMix(shape, 2);
            vh::count("releases");
        }
        else if (a < 70)
        {
            std::vector<Harness::Item> items;
            std::vector<int> want;     // 1 ok, 0 error, 2 either
            unsigned n = g.chance(3) ? 100 : g.below(6);
            auto nLinks = h.r.liveLinks, nAcc = h.r.liveAcceptors, nTim = h.r.liveTimers;
            auto simServers = servers;
            auto simClients = clients;
            bool freed = false;
            for (unsigned k = 0; k < n; ++k)
            {
                Harness::Item it;
                it.id = g.chance(80) ? g.below(5) : g.pick<uint32_t>({5, 99, 0xffffffff, 0x80000000});
                it.mode = g.chance(95) ? g.below(2) : 2 + g.below(3);
                it.addr = mkAddr(127, 0, 0, g.chance(15) ? 9 : 1 + g.below(4), 0x0102);
                std::string ad((char*)it.addr.data, 6);
                int wnt = 0;
                if (it.mode == 0 && it.id < ns)
                {
                    bool replaced = simServers.count(it.id);
                    if (replaced) { --nAcc; simServers.erase(it.id); freed = true; } // also gives back what its connections held
                    bool busy = w.busyAddrs.count(ad);
                    for (auto& s : simServers) busy = busy || s.second == ad;
                    bool room = nAcc < h.r.limAcceptors;
                    if (!busy && room) { wnt = 1; ++nAcc; simServers[it.id] = ad; }
                }
                else if (it.mode == 1 && it.id < nc)
                {
                    bool replaced = simClients.count(it.id);
                    bool room = nLinks < h.r.limLinks && nTim < h.r.limTimers;
                    if (replaced && !room) { if (limited) continue; }
                    if (!room && freed) continue;
                    if (room) { wnt = 1; if (!replaced) { ++nLinks; ++nTim; } simClients.insert(it.id); }
                }
                items.push_back(it);
                want.push_back(wnt);
            }
            if (!inited) { simServers = servers; simClients = clients; }
            h.config(items);
            w.settle();
            if (inited)
            {
                ++wantCfg;
                CHK("M07", h.cfgRsps.size() == wantCfg, "config-answer", "%u configure requests, %zu answers", wantCfg, h.cfgRsps.size());
                if (h.cfgRsps.size() != wantCfg) throw vh::StopCase();
                auto& r = h.cfgRsps.back().items;
                CHK("M07", r.size() == items.size(), "config-items", "%zu items configured, %zu reported", items.size(), r.size());
                for (size_t k = 0; k < std::min(r.size(), items.size()); ++k)
                {
                    CHK("M07", r[k].first == items[k].id, "config-items", "item %zu has id %u, reported %u", k, items[k].id, r[k].first);
                    CHK("M07", r[k].second == (want[k] == 1), "config-status", "item %zu (id %u mode %u addr .%d of %u servers %u clients) reported %s", k, items[k].id, items[k].mode, (int)items[k].addr.data[3], ns, nc, r[k].second ? "success" : "error");
                    vh::count(want[k] ? "items_ok" : "items_rejected");
                    shape = vh::hashMix(shape, 16 + want[k] * 2 + items[k].mode * 4);
                }
                servers = simServers; clients = simClients;
                CHK("M07", h.r.liveAcceptors == servers.size(), "config-state", "%zu servers run, %u listeners held", servers.size(), h.r.liveAcceptors);
                // successful items are really in service
                for (auto& s : servers)
                {
                    bool lis = false;
                    for (auto* ac : w.acceptors) lis = lis || (ac->listening && std::string((char*)ac->addr.data, 6) == s.second);
                    CHK("M07", lis, "config-state", "server %u reported success but does not listen", s.first);
                }
            }
            else
                CHK("M07", h.cfgRsps.size() == wantCfg, "config-answer", "configure answered without initialisation as success");
        }
        else if (a < 80) w.advance(g.below(5 * SEC));
        else if (a < 90)
        {
            // some traffic so that release happens in all states
            if (!servers.empty())
            {
                auto s = *servers.begin();
                rx::LinkAddr ad{}; ad.type = rx::LinkAddr::Type::ipv4; memcpy(ad.data, s.second.data(), 6);
                if (auto k = w.connectTo(ad))
                {
                    w.settle();
                    Req q = genReq(g, 0, 5, 0);
                    Bytes f = q.frame; if (g.chance(30)) f.resize(f.size() / 2);
                    w.peerSend(k, f);
                    if (g.chance(70)) w.settle();
                }
            }
        }
        else
        {
            rx::MsgStore<MsgModbusClientAduReq> st;
            auto& m = st.getMsg();
            m.numItems = 1;
            auto& it = m.item(0);
            it.clientId = g.below(6); it.transactId = 1; it.func = ModbusFunction::readInputRegisters; it.addr = 1; it.startItem = 0; it.numItems = 3; it.numBytes = 0;
            w.send(m);
            if (g.chance(70)) w.settle();
        }
    }
    h.release();
    w.settle();
    CHK("M07", h.r.liveAcceptors == 0 && h.r.liveLinks == 0 && h.r.liveTimers == 0, "release-leak", "after the final release %u listeners %u links %u timers are held", h.r.liveAcceptors, h.r.liveLinks, h.r.liveTimers);
    // late answers of the application find nobody
    rx::MsgStore<MsgModbusAduRsp> st;
    st.getMsg().serverId = 0; st.getMsg().sessionId = 0; st.getMsg().transactId = 5; st.getMsg().error = ModbusError::noerror; st.getMsg().status = MsgStatus::success; st.getMsg().numBytes = 0;
    w.send(st.getMsg());
    w.advance(60 * SEC);
    vh::distinct("histories", vh::hashMix(shape, w.orderHash));
    if (g.below(3000) == 0) vh::sample(vh::fmt("lifecycle: %u inits %u releases %u configs", wantInit, wantRel + 1, wantCfg));
}

void runLifecycle()
{
    vh::suite("lifecycle", 8000, 200000, [](Rng& g, uint64_t) { lifecycleCase(g, 3 + g.below(20)); });
    vh::suite("endurance", 8, 64, [](Rng& g, uint64_t) { vh::count("endurance_runs"); lifecycleCase(g, RUNNING_ON_VALGRIND ? 100 : 4000); });
}
} // namespace

int main(int argc, char** argv)
{
    return vh::mainImpl(argc, argv, {{"M01", runClient}, {"M02", runClient}, {"M03", runClient}, {"M06", runClient}, {"M04", runServer}, {"M05", runServer}, {"M07", runLifecycle}});
}

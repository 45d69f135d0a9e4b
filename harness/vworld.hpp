// Virtual-time stand-in for the reactor environment (timers, links, listeners, mailboxes).
// Mimics the contract of the real Reactor/Link/Timer/Acceptor:
//  - edge triggered link events: one data event per arrival, none for left-over bytes
//  - a link that sees an error closes itself before the error event is delivered
//  - receive: bytes -> ok, nothing -> na, end of stream -> closed, closed link -> error
//  - send on a closed/broken link returns -1, otherwise everything is taken
//  - std::exceptions escaping a handler are contained per event; anything else is a violation
#pragma once
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#define VWORLD_MEMCHECK 1
#else
#define RUNNING_ON_VALGRIND 0
#endif
#include "vh.hpp"
#include <deque>
#include <list>
#include <memory>
#include <set>
#include <algorithm>
#include "ReactorInterface.hpp"
#include "SenderInterface.hpp"
#include "LinkInterface.hpp"
#include "TimerInterface.hpp"
#include "AcceptorInterface.hpp"
#include "MsgInterface.hpp"
#include "MaxMsgSize.hpp"
#include "CompDefs.hpp"

namespace vw
{
using vh::Bytes;
namespace rx = app::reactor;

class World;
class VLink;

// One TCP connection between the code under test and a scripted peer.
struct Conn
{
    unsigned id = 0;
    rx::LinkAddr addr{};
    bool bySut = false;          // opened by the code under test
    bool established = false;
    bool refused = false;
    bool sutClosed = false;      // code under test closed its end
    bool peerClosed = false;     // peer sent FIN
    bool reset = false;          // connection broken
    Bytes toSut;                 // arrived, not yet read
    Bytes fromSut;               // everything the code under test sent
    std::vector<size_t> sendSizes;
    std::vector<long> sendTimes;
    VLink* link = nullptr;
    long openedAt = 0, closedAt = -1;
    uint64_t bytesRead = 0;
    unsigned failSends = 0, failedSends = 0, failSendNo = 0;   // sends to be failed, failed
};
using ConnPtr = std::shared_ptr<Conn>;

class VReactor;

class VLink : public rx::LinkInterface
{
public:
    VLink(World& w) : world(w) {}
    ~VLink();
    void connect(rx::LinkAddr const&) final;
    void close() final;
    void release() final { close(); handler = {}; }
    int send(void const*, std::size_t) final;
    rx::LinkResult receive(std::uint8_t*, std::size_t) final;
    void setHandler(rx::LinkHandler h) final { handler = h; }
    int fileDescriptor() const final { return conn ? 3 : -1; }
    void setFileDescriptor(int) final {}
    void onFileDescriptorEvent(int) final {}

    World& world;
    ConnPtr conn;
    rx::LinkHandler handler;
    bool evIn = false, evOut = false, evErr = false;
    uint64_t gen = 0;
};

class VTimer : public rx::TimerInterface
{
public:
    VTimer(World& w) : world(w) {}
    void start(long us) final;
    void stop() final { armed = false; }
    void release() final { armed = false; handler = {}; }
    World& world;
    rx::TimerHandler handler;
    bool armed = false;
    long due = 0;
    long startedAt = 0;
    uint64_t seq = 0;
};

class VAcceptor : public rx::AcceptorInterface
{
public:
    VAcceptor(World& w) : world(w) {}
    ~VAcceptor() { close(); }
    void listen(rx::LinkAddr const&) final;
    void accept(rx::LinkInterface&) final;
    void close() final;
    void release() final { close(); handler = {}; }
    World& world;
    rx::AcceptorHandler handler;
    bool listening = false;
    rx::LinkAddr addr{};
    std::deque<ConnPtr> backlog;
};

struct MsgCopy
{
    size_t len = 0;
    std::unique_ptr<char[]> mem;   // exact size: over-reads are seen by the address sanitizer
    rx::MsgInterface const& get() const { return *reinterpret_cast<rx::MsgInterface const*>(mem.get()); }
};

class VReactor : public rx::ReactorInterface
{
public:
    explicit VReactor(World& w) : world(w) {}
    void registerHandler(rx::MsgId id, rx::MsgHandler h) final { handlers[id] = h; }
    void registerHandlers(rx::MsgHandlerVector const& v) final { for (auto& x : v) handlers[std::get<0>(x)] = std::get<1>(x); }
    rx::TimerPtr createTimer(rx::TimerHandler) final;
    rx::LinkPtr createLink(rx::LinkHandler) final;
    rx::AcceptorPtr createAcceptor(rx::AcceptorHandler) final;
    void send(rx::MsgInterface const& m) final { push(m); }
    void start() final {}
    void stop() final {}
    void push(rx::MsgInterface const& m);

    World& world;
    std::map<rx::MsgId, rx::MsgHandler> handlers;
    std::deque<MsgCopy> mailbox;
    unsigned liveTimers = 0, liveLinks = 0, liveAcceptors = 0;
    bool busy = false;                        // its thread does not return to the loop now
    unsigned limTimers = 32, limLinks = 32, limAcceptors = 32;
};

// What happens to a connect() made by the code under test.
enum class ConnectPlan { accept, refuse, blackhole, throwNow };

class World : public rx::SenderInterface
{
public:
    explicit World(vh::Rng& r) : rng(r) {}
    ~World() { alive = false; }

    vh::Rng& rng;
    bool alive = true;
    long now = 1000000; // us
    uint64_t timerSeq = 0;
    unsigned nextConn = 1;
    std::set<VTimer*> timers;
    std::set<VLink*> links;
    std::set<VAcceptor*> acceptors;
    std::vector<ConnPtr> conns;             // all connections ever
    std::map<rx::ComponentId, VReactor*> comps;
    std::function<void(rx::MsgInterface const&)> onOther; // messages for components outside this world
    std::function<ConnectPlan(rx::LinkAddr const&)> onConnect;
    std::function<void(ConnPtr)> onOpened;    // connection attempt by the code under test
    std::function<void(ConnPtr)> onConnected;
    std::function<void(ConnPtr)> onSutSend;   // after each send by the code under test
    std::function<void(ConnPtr)> onSutClose;
    std::function<bool()> failSend, failTimer, failLink, failAcceptor, failListen, failAccept;
    uint64_t escaped = 0;                     // contained exceptions
    std::string lastEscape;
    uint64_t orderHash = 1469598103934665603ull;
    uint64_t events = 0;
    uint64_t oversize = 0;
    uint64_t eventLimit = 2000000;

    // SenderInterface: from components
    void send(rx::MsgInterface const& m) override
    {
        auto it = comps.find(m.getCompId());
        if (it != comps.end()) it->second->push(m);
        else if (onOther) onOther(m);
    }

    void guarded(char const* what, std::function<void()> const& f)
    {
        ++events;
        try { f(); }
        catch (std::exception const& e) { ++escaped; lastEscape = std::string(what) + ": " + e.what(); }
        catch (vh::StopCase&) { throw; }
        catch (...) { vh::viol("foreign-exception", std::string("non-standard exception escaped a ") + what + " handler"); throw vh::StopCase(); }
        if (events > eventLimit) { vh::viol("livelock", "event loop does not quiesce"); throw vh::StopCase(); }
    }

    // ---- peer side ----
    ConnPtr connectTo(rx::LinkAddr const& a)   // scripted peer connects to the code under test
    {
        for (auto* ac : acceptors)
            if (ac->listening && std::memcmp(ac->addr.data, a.data, 6) == 0)
            {
                auto c = std::make_shared<Conn>();
                c->id = nextConn++;
                c->addr = a;
                c->openedAt = now;
                conns.push_back(c);
                ac->backlog.push_back(c);
                return c;
            }
        return {};
    }
    void peerSend(ConnPtr c, Bytes const& b)
    {
        if (c->reset || c->peerClosed || b.empty()) return;
        if (c->sutClosed) { c->reset = true; return; }
        c->toSut.insert(c->toSut.end(), b.begin(), b.end());
        if (c->link) c->link->evIn = true;
    }
    void peerClose(ConnPtr c)
    {
        if (c->peerClosed || c->reset) return;
        c->peerClosed = true;
        if (c->link) c->link->evIn = true;
    }
    void peerReset(ConnPtr c)
    {
        if (c->reset) return;
        c->reset = true;
        c->toSut.clear();
        if (c->link) c->link->evErr = true;
    }
    void establish(ConnPtr c) { if (c->link && !c->established && !c->reset) { c->established = true; c->link->evOut = true; if (onConnected) onConnected(c); } }
    void refuse(ConnPtr c) { if (c->link && !c->established) { c->refused = true; c->reset = true; c->link->evErr = true; } }

    // ---- scheduler ----
    bool deliverLink(VLink* l)
    {
        if (l->evErr)
        {
            l->evErr = l->evIn = l->evOut = false;
            l->close();
            if (auto h = l->handler) guarded("link error", [&]{ h(rx::LinkEvent::error); });
            return true;
        }
        if (l->evOut)
        {
            l->evOut = false;
            if (auto h = l->handler) guarded("link connected", [&]{ h(rx::LinkEvent::connected); });
            return true;
        }
        if (l->evIn)
        {
            l->evIn = false;
            if (auto h = l->handler) guarded("link data", [&]{ h(rx::LinkEvent::data); });
            return true;
        }
        return false;
    }
    // one randomly chosen ready event; false when idle
    bool step()
    {
        struct R { int kind; void* p; rx::ComponentId c; };
        std::vector<R> ready;
        for (auto* l : linkOrder) if (l->evIn || l->evOut || l->evErr) ready.push_back({0, l, 0});
        for (auto* a : acceptorOrder) if (a->listening && !a->backlog.empty() && a->handler && !blockedAcceptors.count(a)) ready.push_back({1, a, 0});
        for (auto& c : comps) if (!c.second->mailbox.empty() && !c.second->busy) ready.push_back({2, c.second, c.first});
        if (ready.empty()) return false;
        auto idx = rng.below(ready.size());
        auto& r = ready[idx];
        orderHash = vh::hashMix(orderHash, r.kind * 16 + r.c * 64 + ready.size());
        if (r.kind == 0) deliverLink(static_cast<VLink*>(r.p));
        else if (r.kind == 1)
        {
            auto* a = static_cast<VAcceptor*>(r.p);
            size_t before = a->backlog.size();
            auto h = a->handler;
            guarded("accept", [&]{ h(); });
            // a listener that does not accept now is polled again (level triggered) but must not spin the scheduler
            if (acceptors.count(a) && a->backlog.size() == before) blockedAcceptors.insert(a);
        }
        else
        {
            auto* v = static_cast<VReactor*>(r.p);
            auto m = std::move(v->mailbox.front());
            v->mailbox.pop_front();
            auto& msg = m.get();
            auto it = v->handlers.find(msg.getMsgId());
            vh::count("msgs_delivered");
            if (it != v->handlers.end() && it->second) guarded("message", [&]{ it->second(msg); });
        }
        return true;
    }
    void settle() { blockedAcceptors.clear(); while (step()) {} }
    void steps(unsigned n) { blockedAcceptors.clear(); while (n-- && step()) {} }
    VTimer* nextTimer()
    {
        VTimer* best = nullptr;
        for (auto* t : timers) if (t->armed && (!best || t->due < best->due || (t->due == best->due && t->seq < best->seq))) best = t;
        return best;
    }
    std::multimap<long, std::function<void()>> peerEvents;
    void at(long delay, std::function<void()> f) { peerEvents.emplace(now + delay, std::move(f)); }
    std::set<std::string> busyAddrs;          // addresses somebody else listens on
    // advance virtual time, firing timers in due order, running everything ready in between
    void advance(long us, bool run = true)
    {
        long target = now + us;
        if (run) settle();
        while (true)
        {
            auto* t = nextTimer();
            auto pe = peerEvents.begin();
            bool havePeer = pe != peerEvents.end() && pe->first <= target;
            bool haveTimer = t && t->due <= target;
            if (!havePeer && !haveTimer) break;
            if (havePeer && haveTimer)
            {
                if (pe->first == t->due) havePeer = rng.chance(50);
                else havePeer = pe->first < t->due;
            }
            if (havePeer)
            {
                if (pe->first > now) now = pe->first;
                auto f = std::move(pe->second);
                peerEvents.erase(pe);
                f();
            }
            else
            {
                if (t->due > now) now = t->due;
                t->armed = false;
                vh::count("timers_fired");
                if (t->handler) guarded("timer", [&]{ auto h = t->handler; h(); });
            }
            if (run) settle();
        }
        now = target;
    }
    std::vector<VLink*> linkOrder;
    std::vector<VAcceptor*> acceptorOrder;
    std::set<VAcceptor*> blockedAcceptors;
};

inline VLink::~VLink() { close(); }
inline void VLink::connect(rx::LinkAddr const& a)
{
    if (conn) throw std::runtime_error("already connected");
    auto plan = world.onConnect ? world.onConnect(a) : ConnectPlan::accept;
    if (plan == ConnectPlan::throwNow) throw std::runtime_error("connect");
    conn = std::make_shared<Conn>();
    conn->id = world.nextConn++;
    conn->addr = a;
    conn->bySut = true;
    conn->link = this;
    conn->openedAt = world.now;
    world.conns.push_back(conn);
    evIn = evOut = evErr = false;
    if (world.onOpened) world.onOpened(conn);
    if (plan == ConnectPlan::accept) world.establish(conn);
    else if (plan == ConnectPlan::refuse) world.refuse(conn);
}
inline void VLink::close()
{
    evIn = evOut = evErr = false;
    if (!conn) return;
    auto c = conn;
    conn.reset();
    c->sutClosed = true;
    c->link = nullptr;
    c->closedAt = world.now;
    if (world.alive && world.onSutClose) world.onSutClose(c);
}
// Under valgrind: what goes on the wire must have been written by someone (the request itself reports the bytes that were not).
inline void wireDefined(uint8_t const* p, std::size_t n)
{
#ifdef VWORLD_MEMCHECK
    if (RUNNING_ON_VALGRIND) { vh::count("wire_bytes_checked", n); (void)VALGRIND_CHECK_MEM_IS_DEFINED(p, n); }
#else
    (void)p, (void)n;
#endif
}
inline int VLink::send(void const* d, std::size_t n)
{
    if (!conn) return -1;
    if (conn->reset || (conn->bySut && !conn->established)) return -1;
    if (world.failSend && world.failSend()) return -1;
    if (conn->failSendNo && !--conn->failSendNo) { ++conn->failedSends; return -1; }
    if (conn->failSends) { --conn->failSends; ++conn->failedSends; return -1; }
    auto p = static_cast<uint8_t const*>(d);
    wireDefined(p, n);
    conn->fromSut.insert(conn->fromSut.end(), p, p + n);
    conn->sendSizes.push_back(n);
    conn->sendTimes.push_back(world.now);
    auto c = conn;
    if (world.onSutSend) world.onSutSend(c);
    return 1;
}
inline rx::LinkResult VLink::receive(std::uint8_t* d, std::size_t n)
{
    if (!conn) return {rx::LinkResult::error, 0};
    if (conn->reset) return {rx::LinkResult::error, 0};
    if (conn->bySut && !conn->established) return {rx::LinkResult::na, 0};
    size_t k = std::min(n, conn->toSut.size());
    if (k == 0 && n != 0)
    {
        if (conn->peerClosed) return {rx::LinkResult::closed, 0};
        return {rx::LinkResult::na, 0};
    }
    if (k == 0) return {rx::LinkResult::closed, 0}; // read(fd, p, 0) == 0
    std::memcpy(d, conn->toSut.data(), k);
    conn->toSut.erase(conn->toSut.begin(), conn->toSut.begin() + k);
    conn->bytesRead += k;
    vh::count("bytes_read", k);
    return {rx::LinkResult::ok, (int)k};
}
inline void VTimer::start(long us) { armed = true; startedAt = world.now; due = world.now + us; seq = ++world.timerSeq; }
inline void VAcceptor::listen(rx::LinkAddr const& a)
{
    if (listening) throw std::runtime_error("already inused");
    if (world.failListen && world.failListen()) throw std::runtime_error("bind");
    if (world.busyAddrs.count(std::string((char const*)a.data, 6))) throw std::runtime_error("bind");
    for (auto* o : world.acceptors)
        if (o->listening && std::memcmp(o->addr.data, a.data, 6) == 0) throw std::runtime_error("bind");
    addr = a;
    listening = true;
}
inline void VAcceptor::close()
{
    if (!listening) return;
    listening = false;
    for (auto& c : backlog) { c->reset = true; c->sutClosed = true; }
    backlog.clear();
}
inline void VAcceptor::accept(rx::LinkInterface& l)
{
    if (backlog.empty()) throw std::runtime_error("accept");
    auto c = backlog.front();
    backlog.pop_front();
    if (world.failAccept && world.failAccept()) { c->reset = true; c->sutClosed = true; throw std::runtime_error("accept"); }
    auto* v = dynamic_cast<VLink*>(&l);
    if (!v || v->conn) throw std::runtime_error("already connected");
    v->conn = c;
    c->link = v;
    c->established = true;
    vh::count("accepted");
    v->evIn = !c->toSut.empty() || c->peerClosed;
    v->evErr = c->reset;
}
inline rx::TimerPtr VReactor::createTimer(rx::TimerHandler h)
{
    if (liveTimers >= limTimers || (world.failTimer && world.failTimer())) throw std::runtime_error("timerPool alloc");
    auto* t = new VTimer(world);
    t->handler = h;
    world.timers.insert(t);
    ++liveTimers;
    return rx::TimerPtr(t, [this](rx::TimerInterface* p)
    {
        auto* t = static_cast<VTimer*>(p);
        t->release();
        world.timers.erase(t);
        --liveTimers;
        delete t;
    });
}
inline rx::LinkPtr VReactor::createLink(rx::LinkHandler h)
{
    if (liveLinks >= limLinks || (world.failLink && world.failLink())) throw std::runtime_error("linkPool alloc");
    auto* l = new VLink(world);
    l->handler = h;
    world.links.insert(l);
    world.linkOrder.push_back(l);
    ++liveLinks;
    return rx::LinkPtr(l, [this](rx::LinkInterface* p)
    {
        auto* l = static_cast<VLink*>(p);
        l->release();
        world.links.erase(l);
        world.linkOrder.erase(std::find(world.linkOrder.begin(), world.linkOrder.end(), l));
        --liveLinks;
        delete l;
    });
}
inline rx::AcceptorPtr VReactor::createAcceptor(rx::AcceptorHandler h)
{
    if (liveAcceptors >= limAcceptors || (world.failAcceptor && world.failAcceptor())) throw std::runtime_error("acceptorPool alloc");
    auto* a = new VAcceptor(world);
    a->handler = h;
    world.acceptors.insert(a);
    world.acceptorOrder.push_back(a);
    ++liveAcceptors;
    return rx::AcceptorPtr(a, [this](rx::AcceptorInterface* p)
    {
        auto* a = static_cast<VAcceptor*>(p);
        a->release();
        world.acceptors.erase(a);
        world.acceptorOrder.erase(std::find(world.acceptorOrder.begin(), world.acceptorOrder.end(), a));
        --liveAcceptors;
        delete a;
    });
}
inline void VReactor::push(rx::MsgInterface const& m)
{
    size_t n = m.size();
    if (n > rx::maxMsgSize) { ++world.oversize; return; }
    MsgCopy c;
    c.len = n;
    c.mem.reset(new char[n]);
    std::memcpy(c.mem.get(), (void const*)&m, n);
    mailbox.push_back(std::move(c));
}

inline rx::LinkAddr mkAddr(unsigned a, unsigned b, unsigned c, unsigned d, unsigned port)
{
    rx::LinkAddr r{};
    r.type = rx::LinkAddr::Type::ipv4;
    r.data[0] = (char)a; r.data[1] = (char)b; r.data[2] = (char)c; r.data[3] = (char)d;
    r.data[4] = (char)(port >> 8); r.data[5] = (char)port;
    return r;
}

} // namespace vw

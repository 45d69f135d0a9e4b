// The whole system under its controller. Property C01.
#include "uaworld.hpp"
#include "ControllerComponent.hpp"
#include "Modbus.hpp"
#include "ModbusComponent.hpp"
#include "UaController.hpp"
#include "ConnectorSimple.hpp"
#include "ReactorManager.hpp"
#include "Deployer.hpp"
#include <atomic>
#include <dirent.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <sys/socket.h>
#include "vclock.hpp"
using namespace uw;

namespace { std::function<void(long)> onSleep; std::atomic<bool> scaleSleep{false}; }
static void realSleep(long us);
extern "C" int __real_nanosleep(const struct timespec*, struct timespec*);
extern "C" int __wrap_nanosleep(const struct timespec* t, struct timespec* r)
{
    if (scaleSleep)
    {
        realSleep(t->tv_sec * 1000000l + t->tv_nsec / 1000);
        return 0;
    }
    if (!onSleep) return __real_nanosleep(t, r);
    onSleep(t->tv_sec * 1000000l + t->tv_nsec / 1000);
    return 0;
}
extern "C" int __real_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*);
extern "C" int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec* t, struct timespec* r)
{
    if (scaleSleep && !f)
    {
        realSleep(t->tv_sec * 1000000l + t->tv_nsec / 1000);
        return 0;
    }
    if (!onSleep || f) return __real_clock_nanosleep(c, f, t, r);
    onSleep(t->tv_sec * 1000000l + t->tv_nsec / 1000);
    return 0;
}

extern "C" size_t __sanitizer_get_current_allocated_bytes();
namespace
{
char const* const kInit[] = {"Modbus", "transport", "channel", "service"};

struct Whole : Sys
{
    VReactor rm, rc, rn;
    std::unique_ptr<app::modbus::ModbusComponent> mb;
    std::unique_ptr<app::controller::ControllerComponent> ct;
    std::unique_ptr<app::ConnectorSimple> cn;
    rx::LinkAddr mbAddr = mkAddr(127, 0, 0, 1, 12145);
    std::map<Conn*, std::pair<ConnPtr, size_t>> bridge;   // partner, bytes passed on
    std::map<Conn*, ConnPtr> keep;
    unsigned init[4] = {}, rel[4] = {}, cfg[4] = {};
    uint64_t polls = 0, replies = 0;
    bool want = false, ever = false;

    explicit Whole(Rng& g) : Sys(g), rm(w), rc(w), rn(w)
    {
        worldNow = &w.now;
        addr = mkAddr(127, 0, 0, 1, 4369);
        w.onOther = {};
        w.comps[CompIds::compModbus] = &rm;
        w.comps[CompIds::compController] = &rc;
        w.comps[CompIds::compConnector] = &rn;
        mb = std::make_unique<app::modbus::ModbusComponent>(w, rm);
        ct = std::make_unique<app::controller::ControllerComponent>(w, rc);
        cn = std::make_unique<app::ConnectorSimple>(w, rn);
        auto base = w.onMsg;
        w.onMsg = [this, base](rx::MsgInterface const& m)
        {
            auto id = m.getMsgId();
            if (id == MsgModbusInitReq::msgId()) ++init[0];
            if (id == MsgUaTransportInitReq::msgId()) ++init[1];
            if (id == MsgUaSecureChannelInitReq::msgId()) ++init[2];
            if (id == MsgUaServiceInitReq::msgId()) ++init[3];
            if (id == MsgModbusReleaseReq::msgId()) ++rel[0];
            if (id == MsgUaTransportReleaseReq::msgId()) ++rel[1];
            if (id == MsgUaSecureChannelReleaseReq::msgId()) ++rel[2];
            if (id == MsgUaServiceReleaseReq::msgId()) ++rel[3];
            if (id == MsgModbusConfigReq::msgId()) ++cfg[0];
            if (id == MsgUaTransportConfigReq::msgId()) ++cfg[1];
            base(m);
        };
        // the Modbus client and server talk to each other
        w.onConnect = [this](rx::LinkAddr const& a)
        {
            for (auto* ac : w.acceptors) if (ac->listening && !std::memcmp(ac->addr.data, a.data, 6)) return ConnectPlan::accept;
            return ConnectPlan::refuse;
        };
        w.onOpened = [this](ConnPtr c)
        {
            auto p = w.connectTo(c->addr);
            if (!p) return;
            bridge[c.get()] = {p, 0}; bridge[p.get()] = {c, 0};
            keep[c.get()] = c; keep[p.get()] = p;
            vh::count("modbus_connections");
        };
        auto up = w.onSutSend;
        w.onSutSend = [this, up](ConnPtr c)
        {
            up(c);
            auto it = bridge.find(c.get());
            if (it == bridge.end()) return;
            (c->bySut ? polls : replies)++;
            Bytes b(c->fromSut.begin() + it->second.second, c->fromSut.end());
            it->second.second = c->fromSut.size();
            w.peerSend(it->second.first, b);
        };
        w.onSutClose = [this](ConnPtr c) { auto it = bridge.find(c.get()); if (it != bridge.end()) w.peerClose(it->second.first); };
        onSleep = [this](long us)
        {
            // the controller sleeps, the others go on
            vh::count("controller_sleeps");
            rc.busy = true;
            w.advance(us);
            rc.busy = false;
        };
    }
    ~Whole() { worldNow = nullptr; onSleep = {}; w.alive = false; w.onMsg = {}; w.onSutSend = {}; w.onSutClose = {}; mb.reset(); ct.reset(); cn.reset(); }
    template <class M> void order() { M m; w.World::send(m); }
    void start() { want = ever = true; vh::trace(vh::fmt("%ld start", w.now)); order<MsgControllerStartReq>(); vh::count("starts"); mix(1); }
    void stop() { want = false; vh::trace(vh::fmt("%ld stop", w.now)); order<MsgControllerStopReq>(); vh::count("stops"); mix(2); }
    unsigned listening(rx::LinkAddr const& a) { unsigned n = 0; for (auto* x : w.acceptors) if (x->listening && !std::memcmp(x->addr.data, a.data, 6)) ++n; return n; }
    unsigned listeners() { unsigned n = 0; for (auto* x : w.acceptors) if (x->listening) ++n; return n; }
    unsigned held() { unsigned n = 0; for (auto* r : {&r0, &r1, &r2, &rm, &rc, &rn}) n += r->liveTimers + r->liveLinks + r->liveAcceptors; return n; }
    unsigned armed() { unsigned n = 0; for (auto* t : w.timers) if (t->armed) ++n; return n; }

    void down()
    {
        w.settle();
        CHK("C01", listeners() == 0, "listening-after-stop", "%u listeners are open after a stop (OPC UA %u, Modbus %u)", listeners(), listening(addr), listening(mbAddr));
        unsigned open = 0; for (auto& c : w.conns) if (c->link && !c->sutClosed) ++open;
        CHK("C01", open == 0, "connections-after-stop", "%u connections are open after a stop", open);
        CHK("C01", held() == 0, "held-after-stop", "%u timers, links and listeners are held after a stop", held());
        auto e = w.events; auto p = polls;
        w.advance(20 * SEC);
        CHK("C01", w.events == e && polls == p && armed() == 0, "active-after-stop", "%lu events in 20 s after a stop", (unsigned long)(w.events - e));
        vh::count("down_checked");
    }
    // end to end: an OPC UA client and Modbus both ways
    void serving()
    {
        w.settle();
        w.advance(3 * SEC);
        CHK("C01", listening(addr) == 1, "not-listening-ua", "%u OPC UA listeners after a start", listening(addr));
        CHK("C01", listening(mbAddr) == 1, "not-listening-modbus", "%u Modbus listeners after a start", listening(mbAddr));
        CHK("C01", listeners() == 2, "extra-listener", "%u listeners after a start", listeners());
        if (listeners() != 2 || vh::failed()) throw vh::StopCase();
        auto& c = add();
        c.start(true);
        for (unsigned svc : {(unsigned)sEndpoints, (unsigned)sCreate}) { c.request(svc, 1); c.sync(); c.settled("C01"); }
        c.request(sActivate, 1, c.lastSession); c.sync(); c.settled("C01");
        c.request(sRead, 1, c.lastSession); c.sync(); c.settled("C01");
        c.request(sClose, 1, c.lastSession); c.sync(); c.settled("C01");
        s_erase(c);
        c.mustBeOpen("C01", "complete session");
        CHK("C01", c.got.size() >= 6, "no-answer", "OPC UA client got %zu answers", c.got.size());
        c.leave(); w.settle();
        vh::count("ua_served");
        // polling goes on
        for (int k = 0; k < 2; ++k)
        {
            auto p = polls, r = replies;
            w.advance(15 * SEC);
            CHK("C01", polls > p && replies > r, "no-polling", "%lu Modbus requests and %lu answers in 15 s", (unsigned long)(polls - p), (unsigned long)(replies - r));
            vh::count("polls", polls - p);
        }
        external(false);
    }
    void s_erase(Client& c) { sessionOwner.erase(c.lastSession); }
    // a Modbus client from outside
    void external(bool hostile)
    {
        auto c = w.connectTo(mbAddr);
        if (!c) return;
        w.settle();
        if (!c->link) { vh::count("external_not_accepted"); return; }
        auto ask = [&](unsigned tx, unsigned func, unsigned first, unsigned num, Bytes const& data)
        {
            Bytes b{(uint8_t)(tx >> 8), (uint8_t)tx, 0, 0, 0, 0, 1, (uint8_t)func, (uint8_t)(first >> 8), (uint8_t)first};
            if (func == 6) b.insert(b.end(), data.begin(), data.begin() + 2);
            else { b.push_back(num >> 8); b.push_back(num); }
            if (func == 16) { b.push_back(data.size()); b.insert(b.end(), data.begin(), data.end()); }
            b[4] = (b.size() - 6) >> 8; b[5] = b.size() - 6;
            vh::trace(vh::fmt("%ld external Modbus client sends %s", w.now, vh::hex(b, 32).c_str()));
            w.peerSend(c, b);
            w.settle();
        };
        if (!hostile)
        {
            // (requests that come between two polling rounds are not answered)
            bool ok = false;
            Bytes a;
            unsigned first = 0, num = 0;
            for (int k = 0; k < 5 && !ok; ++k)
            {
                unsigned tx = rng.pick<unsigned>({0, 3, 4, 7, 8, 10});
                first = rng.below(900); num = 1 + rng.below(100);
                size_t n = c->fromSut.size();
                ask(tx, 4, first, num, {});
                a.assign(c->fromSut.begin() + n, c->fromSut.end());
                ok = a.size() == 9 + num * 2 && a[0] == tx >> 8 && a[1] == (tx & 255) && a[7] == 4 && a[8] == num * 2;
                if (!ok) w.advance(6 * SEC);
                if (c->sutClosed) { c = w.connectTo(mbAddr); w.settle(); }
            }
            CHK("C01", ok, "external-answer", "external Modbus client reading %u at %u got %s", num, first, vh::hex(a, 32).c_str());
            vh::count("modbus_served");
        }
        else for (unsigned k = 1 + rng.below(5); k && !c->sutClosed; --k)
        {
            unsigned func = rng.pick<unsigned>({1, 2, 3, 4, 4, 6, 16, 99});
            unsigned tx = func == 6 || func == 16 ? 16 + rng.below(65000) : rng.chance(50) ? rng.below(16) : rng.below(65536);
            unsigned num = 1 + rng.below(func < 3 ? 2000 : 123);
            Bytes data(func == 16 ? num * 2 : 2); for (auto& x : data) x = rng.next();
            ask(tx, func, rng.chance(50) ? rng.below(65536) : rng.below(1024), num, data);
            if (rng.chance(30)) w.advance(rng.below(6 * SEC));
            vh::count("hostile_modbus");
        }
        w.peerClose(c);
        w.settle();
    }
    bool quietCounts(char const* what, unsigned const* a, unsigned const* before, unsigned n)
    {
        bool ok = true;
        for (unsigned k = 0; k < n; ++k)
        {
            CHK("C01", a[k] == before[k] + 1, std::string(what) + "-count", "%s: subsystem %s was asked %u times", what, kInit[k], a[k] - before[k]);
            ok = ok && a[k] == before[k] + 1;
        }
        return ok;
    }
    void disturb()
    {
        unsigned k = rng.below(100);
        mix(k);
        if (k < 30) w.steps(rng.below(12));
        else if (k < 45) w.advance(rng.below(50) * MS);
        else if (k < 60) w.advance(rng.below(8 * SEC));
        else if (k < 75) w.settle();
        else if (k < 85)
        {
            auto c = w.connectTo(addr);
            if (!c) return;
            vh::count("passing_clients");
            Client x(*this, 900); x.modelled = false;
            Bytes b = x.helloFrame();
            if (rng.chance(50)) for (unsigned n = rng.below(60); n; --n) b.push_back(rng.next());
            w.peerSend(c, b);
            w.steps(rng.below(20));
            if (rng.chance(50)) { if (rng.chance(50)) w.peerReset(c); else w.peerClose(c); }
        }
        else if (k < 92) external(true);
    }
};

void lifecycle(Rng& g, uint64_t)
{
    Whole s(g);
    unsigned cycles = 1 + g.below(5);
    for (unsigned k = 0; k < cycles; ++k)
    {
        unsigned style = g.below(10);
        if (style < 4)
        {
            // regular: stopped -> started -> stopped
            if (s.want) { s.stop(); s.w.settle(); s.w.advance(3 * SEC); }
            unsigned i[4], r[4], c[4]; std::memcpy(i, s.init, sizeof i); std::memcpy(c, s.cfg, sizeof c);
            std::memcpy(r, s.rel, sizeof r);
            s.start(); s.w.settle(); s.w.advance(3 * SEC);
            s.quietCounts("init", s.init, i, 4);
            s.quietCounts("config", s.cfg, c, 2);
            bool none = !std::memcmp(r, s.rel, sizeof r);
            CHK("C01", none, "release-on-start", "a subsystem is released by a start");
            s.serving();
            for (unsigned d = g.below(4); d; --d) s.disturb();
            std::memcpy(r, s.rel, sizeof r); std::memcpy(i, s.init, sizeof i);
            s.stop(); s.w.settle();
            s.quietCounts("release", s.rel, r, 4);
            CHK("C01", !std::memcmp(i, s.init, sizeof i), "init-on-stop", "a subsystem is initialised by a stop");
            s.down();
        }
        else
        {
            unsigned n = 1 + g.below(6);
            for (unsigned j = 0; j < n; ++j)
            {
                unsigned kind = g.below(10);
                bool st = kind < 7 ? !s.want : kind < 9 ? s.want : g.chance(50);
                if (st == s.want) vh::count(st ? "redundant_starts" : "redundant_stops");
                if (st) s.start(); else s.stop();
                for (unsigned d = g.below(4); d; --d) s.disturb();
            }
        }
        if (vh::failed()) throw vh::StopCase();
        s.w.settle();
        if (s.want) s.serving(); else s.down();
    }
    if (s.want) { s.stop(); s.down(); }
    s.order<app::MsgConnectorInitReq>(); s.w.settle();
    vh::distinct("histories", vh::hashMix(s.hist, s.w.orderHash));
    vh::count("events", s.w.events);
}
// memory does not grow with the number of starts and stops
void cycles(Rng& g, uint64_t n)
{
#if defined(__SANITIZE_ADDRESS__)
    Whole s(g);
    auto one = [&](unsigned i)
    {
        s.start();
        if (n % 2) s.w.steps(i % 40); else { s.w.settle(); s.w.advance((i % 5) * SEC); }
        s.stop();
        s.w.settle(); s.w.advance(2 * SEC);
        CHK("C01", s.listeners() == 0, "listening-after-stop", "%u listeners are open after a stop", s.listeners());
        s.bridge.clear(); s.keep.clear(); s.w.conns.clear();
        if (vh::failed()) throw vh::StopCase();
    };
    unsigned i = 0;
    for (; i < 60; ++i) one(i);
    vh::clearTrace();
    size_t a = __sanitizer_get_current_allocated_bytes();
    for (; i < 260; ++i) one(i);
    vh::clearTrace();
    size_t b = __sanitizer_get_current_allocated_bytes();
    CHK("C01", b < a + 3000, "memory-grows", "200 starts and stops took %zu bytes for good", b - a);
    vh::count("memory_cycles", 200);
    vh::maxi("max_cycle_growth", b > a ? b - a : 0);
#else
    (void)g; (void)n;
#endif
}
// ---- the deployed system: real reactors, threads, sockets and timers ----
// Ports are mapped to free ones, so that several instances can run next to each other.
struct Ports
{
    std::mutex m;
    std::map<std::pair<uint32_t, unsigned>, std::pair<int, unsigned>> at;   // asked for -> descriptor, real port
    std::vector<std::string> odd;
    bool on = false;
    unsigned real(unsigned port) { std::lock_guard<std::mutex> g(m); auto it = at.find({0x7f000001, port}); return it == at.end() ? 0 : it->second.second; }
    size_t size() { std::lock_guard<std::mutex> g(m); return at.size(); }
} ports;
std::atomic<uint64_t> pollsSent{0}, modbusAccepted{0};
} // namespace
extern "C" int __real_bind(int, struct sockaddr const*, socklen_t);
extern "C" int __wrap_bind(int fd, struct sockaddr const* a, socklen_t n)
{
    if (!ports.on) return __real_bind(fd, a, n);
    auto s = *(struct sockaddr_in const*)a;
    std::pair<uint32_t, unsigned> key{ntohl(s.sin_addr.s_addr), ntohs(s.sin_port)};
    std::lock_guard<std::mutex> g(ports.m);
    if (ports.at.count(key)) { errno = EADDRINUSE; return -1; }
    s.sin_port = 0; s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    int rc = __real_bind(fd, (struct sockaddr*)&s, sizeof s);
    if (rc) return rc;
    socklen_t l = sizeof s;
    getsockname(fd, (struct sockaddr*)&s, &l);
    ports.at[key] = {fd, ntohs(s.sin_port)};
    return 0;
}
extern "C" int __real_connect(int, struct sockaddr const*, socklen_t);
extern "C" int __wrap_connect(int fd, struct sockaddr const* a, socklen_t n)
{
    if (!ports.on) return __real_connect(fd, a, n);
    auto s = *(struct sockaddr_in const*)a;
    unsigned p = ports.real(ntohs(s.sin_port));
    if (!p) p = 1;                      // nobody listens there
    s.sin_port = htons(p);
    return __real_connect(fd, (struct sockaddr*)&s, sizeof s);
}
extern "C" int __real_accept(int, struct sockaddr*, socklen_t*);
static int accepted(int rc)
{
    if (ports.on && rc >= 0)
    {
        struct sockaddr_in s; socklen_t l = sizeof s;
        if (!getsockname(rc, (struct sockaddr*)&s, &l) && ntohs(s.sin_port) == ports.real(12145)) ++modbusAccepted;
    }
    return rc;
}
extern "C" int __wrap_accept(int fd, struct sockaddr* a, socklen_t* n) { return accepted(__real_accept(fd, a, n)); }
extern "C" int __real_accept4(int, struct sockaddr*, socklen_t*, int);
extern "C" int __wrap_accept4(int fd, struct sockaddr* a, socklen_t* n, int f) { return accepted(__real_accept4(fd, a, n, f)); }
// The controller sleeps to let Modbus connect. On a loaded machine that may take longer, and less otherwise.
static void realSleep(long us)
{
    uint64_t a = modbusAccepted;
    for (int k = 0; k < 6000 && a == modbusAccepted; ++k) usleep(10000);
    usleep(std::min(us, 300000l));
}
extern "C" int __real_close(int);
extern "C" int __wrap_close(int fd)
{
    if (ports.on)
    {
        std::lock_guard<std::mutex> g(ports.m);
        for (auto it = ports.at.begin(); it != ports.at.end();) if (it->second.first == fd) it = ports.at.erase(it); else ++it;
    }
    return __real_close(fd);
}
extern "C" ssize_t __real_send(int, void const*, size_t, int);
static void sending(int fd)
{
    if (!ports.on) return;
    struct sockaddr_in s; socklen_t l = sizeof s;
    if (!getpeername(fd, (struct sockaddr*)&s, &l) && s.sin_family == AF_INET && ntohs(s.sin_port) == ports.real(12145)) ++pollsSent;
}
extern "C" ssize_t __wrap_send(int fd, void const* b, size_t n, int f) { sending(fd); return __real_send(fd, b, n, f); }
extern "C" ssize_t __real_write(int, void const*, size_t);
extern "C" ssize_t __wrap_write(int fd, void const* b, size_t n) { sending(fd); return __real_write(fd, b, n); }
// processors of the deployment need not exist here
static cpu_set_t lastSet;
extern "C" int __wrap_pthread_setaffinity_np(pthread_t, size_t n, cpu_set_t const* s) { memcpy(&lastSet, s, std::min(n, sizeof lastSet)); return 0; }
extern "C" int __wrap_pthread_getaffinity_np(pthread_t, size_t n, cpu_set_t* s) { memcpy(s, &lastSet, std::min(n, sizeof lastSet)); return 0; }

namespace
{
unsigned descriptors()
{
    unsigned n = 0;
    DIR* d = opendir("/proc/self/fd");
    while (readdir(d)) ++n;
    closedir(d);
    return n - 3;      // . .. and the directory
}
template <class F> bool until(F f, int ms = 90000)
{
    struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
    for (unsigned k = 0;; ++k)
    {
        if (f()) return true;
        clock_gettime(CLOCK_MONOTONIC, &b);
        if ((b.tv_sec - a.tv_sec) * 1000 + (b.tv_nsec - a.tv_nsec) / 1000000 > ms) return false;
        usleep(k < 50 ? 200 : 2000);
    }
}
int64_t wallUs() { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); return t.tv_sec * 1000000ll + t.tv_nsec / 1000; }
int dial(unsigned port)
{
    int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    struct sockaddr_in s{}; s.sin_family = AF_INET; s.sin_port = htons(port ? port : 1); s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (__real_connect(fd, (struct sockaddr*)&s, sizeof s)) { __real_close(fd); return -1; }
    fcntl(fd, F_SETFL, O_NONBLOCK);
    return fd;
}
// a reference client on a real socket
struct Wire
{
    Sys& s; Client& c; int fd = -1; bool eof = false; unsigned step = 0; int64_t lastSent = wallUs();
    Wire(Sys& s_, Client& c_) : s(s_), c(c_) { c.c = std::make_shared<Conn>(); }
    ~Wire() { if (fd >= 0) __real_close(fd); }
    void hangup() { if (fd >= 0) __real_close(fd); fd = -1; c.gone = true; }
    void push(bool pieces)
    {
        Bytes b; b.swap(c.out);
        for (size_t i = 0; i < b.size();)
        {
            size_t n = pieces ? std::min<size_t>(b.size() - i, 1 + s.rng.below(20)) : b.size() - i;
            ssize_t rc = __real_send(fd, b.data() + i, n, MSG_NOSIGNAL);
            if (rc <= 0) { eof = true; break; }
            i += rc;
            lastSent = wallUs();
            if (pieces && s.rng.chance(20)) usleep(50);
        }
        c.fwd.clear();
    }
    void base(int64_t d) { wallBase = wallUs() + d; s.w.now = 0; }
    void pull()
    {
        if (fd < 0) return;
        uint8_t b[4096];
        for (;;)
        {
            ssize_t n = ::recv(fd, b, sizeof b, 0);
            if (n > 0) { c.c->fromSut.insert(c.c->fromSut.end(), b, b + n); continue; }
            if (n == 0 || (errno != EAGAIN && errno != EINTR)) eof = true;
            break;
        }
        base(SEC);
        c.pump();
        vh::count("wire_pulls");
    }
    bool owed() { return c.owed() || (c.helloSent && !c.ack); }
    // next step of a complete session; false at its end
    bool next()
    {
        base(-SEC);
        bool p = s.rng.chance(50);
        switch (step++)
        {
        case 0: c.hello(); if (s.rng.chance(50)) { c.openChannel(); ++step; } break;
        case 1: c.openChannel(); break;
        case 2: c.request(sEndpoints, 1); if (s.rng.chance(50)) c.request(sEndpoints, 1); break;
        case 3: c.request(sCreate, 1); break;
        case 4: c.request(sActivate, 1, c.lastSession); break;
        case 5: for (unsigned n = 1 + s.rng.below(4); n; --n) c.request(sRead, 1, c.lastSession); break;
        case 6: if (s.rng.chance(30)) c.renew(); else c.request(sRead, 1, c.lastSession); break;
        case 7: c.request(sClose, 1, c.lastSession); break;
        case 8: s.sessionOwner.erase(c.lastSession); c.closeChannel(); break;
        default: return false;
        }
        push(p);
        return true;
    }
};

void deployed(Rng& g, uint64_t)
{
    if (vh::failed()) return;          // (a broken system costs time limits)
    unsigned const fd0 = descriptors();
    std::unique_ptr<Sys> s(new Sys(g));        // only its reference clients are used
    wallOn = false;
    ports.on = true; scaleSleep = true;
    struct Off { ~Off() { ports.on = false; scaleSleep = false; } } off;
    auto man = std::make_unique<app::reactor::ReactorManager>();
    app::Deployer dep;
    bool full = g.chance(90);
    dep.apply(*man, full ? app::DeploymentType::cpu3 : app::DeploymentType::def);
    man->start();
    unsigned const fd1 = descriptors();
    auto order = [&](bool on) { vh::trace(on ? "start" : "stop"); if (on) { app::MsgControllerStartReq m; man->send(m); } else { app::MsgControllerStopReq m; man->send(m); } vh::count(on ? "starts" : "stops"); };
    auto fail = [&](char const* key, std::string const& d) { vh::viol(key, d); fflush(nullptr); man->stop(); throw vh::StopCase(); };
    if (!full)
    {
        for (unsigned k = g.below(6); k; --k) order(g.chance(50));
        usleep(g.below(3000));
        man.reset();
        vh::count("deployed_alone");
        VCHECK(descriptors() == fd0, "deployed-descriptors", "%u descriptors remain", descriptors() - fd0);
        return;
    }
    uint64_t h = 7;
    std::vector<std::unique_ptr<Wire>> wires;
    unsigned cycles = 1 + g.below(3);
    bool running = false;
    for (unsigned k = 0; k < cycles; ++k)
    {
        // any requests, the last one is a start
        unsigned hasty = 0;
        for (unsigned n = g.chance(40) ? g.below(4) : 0; n; --n) { order(g.chance(50)); ++hasty; vh::count("deployed_hasty"); if (g.chance(60)) usleep(g.below(20000)); }
        order(true);
        running = true;
        // requests that are still on the way may interrupt what an earlier one has started, each of them once
        unsigned interruptions = hasty ? hasty + 1 : 0;
        auto awaitService = [&]
        {
            if (!until([&] { return ports.real(4369) && ports.real(12145); })) fail("deployed-not-listening", vh::fmt("OPC UA %s, Modbus %s after a start", ports.real(4369) ? "listens" : "does not listen", ports.real(12145) ? "listens" : "does not listen"));
            uint64_t p0 = pollsSent;
            for (int t = 0; !until([&] { return pollsSent > p0; }, 30000); ++t)
            {
                // (the controller gives up when Modbus took too long to connect, which a loaded machine may cause)
                if (t == 2) fail("deployed-no-polling", "no Modbus requests after a start");
                order(false);
                if (!until([&] { return ports.size() == 0; })) fail("deployed-listening", "listeners remain after a stop");
                order(true);
                vh::count("deployed_retries");
            }
            vh::count("deployed_polls", pollsSent - p0);
        };
        int hostile = -1;
        // clients, interleaved; false when they were interrupted
        auto serve = [&]
        {
            unsigned nc = 1 + g.below(6);
            size_t first = wires.size();
            auto interrupted = [&]
            {
                if (!interruptions) return false;
                --interruptions;
                vh::count("deployed_interrupted");
                for (size_t i = first; i < wires.size(); ++i) { wires[i]->hangup(); s->sessionOwner.erase(wires[i]->c.lastSession); }
                return true;
            };
            for (unsigned i = 0; i < nc; ++i)
            {
                wires.push_back(std::make_unique<Wire>(*s, s->add()));
                auto& w = *wires.back();
                if (!until([&] { w.fd = dial(ports.real(4369)); return w.fd >= 0; })) fail("deployed-refused", "OPC UA client is refused");
            }
            if (hostile < 0 && g.chance(50))
            {
                hostile = dial(ports.real(g.chance(50) ? 4369 : 12145));
                uint8_t junk[200]; for (auto& x : junk) x = g.next();
                if (g.chance(50)) memcpy(junk, "HELF", 4);
                if (hostile >= 0) (void)!__real_send(hostile, junk, g.below(sizeof junk), MSG_NOSIGNAL);
                vh::count("deployed_hostile");
            }
            unsigned left = nc;
            while (left)
            {
                auto& w = *wires[first + g.below(nc)];
                if (w.step > 50) continue;
                h = vh::hashMix(h, w.step * 16 + w.c.id % 16);
                if (g.chance(5)) { w.hangup(); s->sessionOwner.erase(w.c.lastSession); w.step = 99; --left; vh::count("deployed_vanished"); continue; }
                int64_t silent = wallUs() - w.lastSent;
                bool more = w.next();
                if (more && !until([&] { w.pull(); return !w.owed() || w.eof; })) { if (interrupted()) return false; fail("deployed-no-answer", vh::fmt("client %u step %u", w.c.id, w.step)); }
                if (more && w.owed() && !vh::failed())
                {
                    if (interrupted()) return false;
                    // (a client of a loaded machine may be silent for so long that the server is right to give it up)
                    if (silent > 20 * SEC) { vh::count("deployed_too_slow"); w.hangup(); s->sessionOwner.erase(w.c.lastSession); w.step = 99; --left; continue; }
                    fail("deployed-closed", vh::fmt("client %u: connection ended in step %u", w.c.id, w.step));
                }
                if (vh::failed()) { man->stop(); throw vh::StopCase(); }
                if (!more)
                {
                    // the server ends the connection after a closed channel
                    if (!until([&] { w.pull(); return w.eof; })) fail("deployed-close", "connection stays open after its channel was closed");
                    w.hangup(); w.step = 99; --left;
                    vh::count("deployed_sessions");
                }
            }
            return true;
        };
        do awaitService(); while (!serve());
        if (g.chance(8)) { uint64_t p = pollsSent; usleep(1000); if (!until([&] { return pollsSent > p + 1; })) fail("deployed-no-polling", "polling does not go on"); vh::count("deployed_second_round"); }
        if (hostile >= 0) __real_close(hostile);
        if (k + 1 == cycles && g.chance(40)) break;      // torn down in service
        std::unique_ptr<Wire> idle;
        if (g.chance(50)) { idle = std::make_unique<Wire>(*s, s->add()); idle->fd = dial(ports.real(4369)); if (g.chance(50)) { idle->base(-SEC); idle->c.hello(); idle->push(false); until([&] { idle->pull(); return !idle->owed() || idle->eof; }, 20000); } }
        hasty = 0;
        for (unsigned n = g.chance(40) ? g.below(4) : 0; n; --n) { order(g.chance(50)); ++hasty; if (g.chance(60)) usleep(g.below(20000)); }
        order(false);
        running = false;
        for (;; --hasty)
        {
            if (!until([&] { return ports.size() == 0; })) fail("deployed-listening", vh::fmt("%zu listeners remain after a stop", ports.size()));
            if (idle && !until([&] { idle->pull(); return idle->eof; })) fail("deployed-connection", "a connection stays open after a stop");
            idle.reset();
            if (!until([&] { return descriptors() == fd1; })) fail("deployed-held", vh::fmt("%d descriptors are held after a stop", (int)descriptors() - (int)fd1));
            // no lifecycle message is left over
            uint64_t p = pollsSent;
            usleep(5000);
            if (pollsSent == p && !ports.size()) break;
            // (a start before the last stop can still be on the way)
            if (!hasty) fail("deployed-active", "Modbus requests are sent or listeners opened after a stop");
        }
        vh::count("deployed_down");
    }
    if (g.chance(50)) man->stop();
    man.reset();
    wires.clear();
    VCHECK(descriptors() == fd0, "deployed-descriptors", "%u descriptors remain after the system is gone", descriptors() - fd0);
    vh::distinct("histories", vh::hashMix(h, running));
    vh::count("deployed_cycles", cycles);
}
#ifdef __SANITIZE_THREAD__
void c01() { vh::suite("deployed", 48, 800, deployed); }
#else
void c01() { vh::suite("lifecycle", 4000, 60000, lifecycle); vh::suite("cycles", 16, 80, cycles); vh::suite("deployed", 32, 800, deployed); }
#endif
} // namespace

int main(int argc, char** argv) { return vh::mainImpl(argc, argv, {{"C01", c01}}); }

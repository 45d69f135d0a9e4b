// Reactor, mailbox, timers, sockets: the real classes with real threads, loopback sockets and injected
// system call failures. Properties R01..R05.
#include "vh.hpp"
#include <atomic>
#include <condition_variable>
#include <deque>
#include <memory>
#include <thread>
#include <algorithm>
#include <signal.h>
#include <sys/time.h>
#include <arpa/inet.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include "Reactor.hpp"
#include "ReactorManager.hpp"
#include "ComponentBase.hpp"
#include "MsgBase.hpp"
#include "MaxMsgSize.hpp"
#include "LinkInterface.hpp"
#include "TimerInterface.hpp"
#include "AcceptorInterface.hpp"
#include "Logger.hpp"

namespace rx = app::reactor;
using vh::Rng;
using vh::Bytes;

// ------------------------------------------------------------------ libc border
namespace
{
thread_local Rng* injRng = nullptr;
thread_local unsigned injPct = 0;
thread_local unsigned injHits = 0;
thread_local bool watchClose = false;
thread_local int lastTimerFd = -1;
thread_local bool recordAddr = false;
thread_local bool refuseForeign = false;
struct Seen { bool set = false; uint32_t ip = 0; uint16_t port = 0; };
thread_local Seen lastConnect, lastBind;

bool inject(char const* what, int err)
{
    if (!injRng || !injPct || !injRng->chance(injPct)) return false;
    vh::count(std::string("fault_") + what);
    ++injHits;
    errno = err;
    return true;
}
} // namespace

extern "C"
{
int __real_socket(int, int, int);
int __wrap_socket(int a, int b, int c) { if (inject("socket", EMFILE)) return -1; return __real_socket(a, b, c); }
int __real_fcntl(int, int, long);
int __wrap_fcntl(int a, int b, long c) { if (b == F_SETFL && inject("fcntl", EINVAL)) return -1; return __real_fcntl(a, b, c); }
int __real_connect(int, const struct sockaddr*, socklen_t);
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t l)
{
    auto* in = (const struct sockaddr_in*)a;
    if (recordAddr) { lastConnect.set = true; lastConnect.ip = ntohl(in->sin_addr.s_addr); lastConnect.port = ntohs(in->sin_port); }
    if (refuseForeign) { errno = ENETUNREACH; return -1; }
    if (inject("connect", ENETUNREACH)) return -1;
    return __real_connect(fd, a, l);
}
int __real_bind(int, const struct sockaddr*, socklen_t);
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t l)
{
    auto* in = (const struct sockaddr_in*)a;
    if (recordAddr) { lastBind.set = true; lastBind.ip = ntohl(in->sin_addr.s_addr); lastBind.port = ntohs(in->sin_port); }
    if (refuseForeign) { errno = EADDRNOTAVAIL; return -1; }
    if (inject("bind", EADDRINUSE)) return -1;
    return __real_bind(fd, a, l);
}
int __real_listen(int, int);
int __wrap_listen(int a, int b) { if (inject("listen", EADDRINUSE)) return -1; return __real_listen(a, b); }
int __real_accept(int, struct sockaddr*, socklen_t*);
int __wrap_accept(int a, struct sockaddr* b, socklen_t* c)
{
    if (inject("accept", EMFILE)) return -1;
    return __real_accept(a, b, c);
}
int __real_accept4(int, struct sockaddr*, socklen_t*, int);
int __wrap_accept4(int a, struct sockaddr* b, socklen_t* c, int f)
{
    if (inject("accept", EMFILE)) return -1;
    return __real_accept4(a, b, c, f);
}
int __real_epoll_ctl(int, int, int, struct epoll_event*);
int __wrap_epoll_ctl(int a, int op, int fd, struct epoll_event* e)
{
    if (op == EPOLL_CTL_ADD && inject("epoll_add", ENOSPC)) return -1;
    return __real_epoll_ctl(a, op, fd, e);
}
int __real_timerfd_create(int, int);
int __wrap_timerfd_create(int a, int b)
{
    if (inject("timerfd_create", EMFILE)) return -1;
    lastTimerFd = __real_timerfd_create(a, b);
    return lastTimerFd;
}
// delays where threads hand over to each other
std::atomic<unsigned> perturb{0}; // per mille
std::atomic<uint64_t> perturbed{0};
static void dawdle()
{
    unsigned p = perturb.load(std::memory_order_relaxed);
    if (!p) return;
    static thread_local uint64_t x = 0;
    if (!x) x = (uint64_t)(uintptr_t)&x * 0x9E3779B97F4A7C15ull | 1;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    if ((x >> 20) % 1000 >= p) return;
    perturbed.fetch_add(1, std::memory_order_relaxed);
    if ((x >> 40) & 1) sched_yield();
    else { struct timespec t{0, (long)((x >> 41) % 150) * 1000}; nanosleep(&t, nullptr); }
}
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); dawdle(); return r; }
ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_write(int fd, const void* b, size_t n) { dawdle(); ssize_t r = __real_write(fd, b, n); int e = errno; dawdle(); errno = e; return r; }
ssize_t __real_read(int, void*, size_t);
ssize_t __wrap_read(int fd, void* b, size_t n) { dawdle(); ssize_t r = __real_read(fd, b, n); int e = errno; dawdle(); errno = e; return r; }
int __real_close(int);
int __wrap_close(int fd)
{
    int rc = __real_close(fd);
    if (watchClose)
    {
        vh::count("closes_watched");
        if (rc == -1 && errno == EBADF && vh::ctx.prop == "R05") vh::viol("double-close", vh::fmt("descriptor %d closed although it is not open", fd));
    }
    return rc;
}
}

namespace
{
constexpr long MS = 1000, SEC = 1000000;

long nowUs()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000000L + t.tv_nsec / 1000;
}
// nanoseconds: used for the never-early verdict
long nowNs()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000000000L + t.tv_nsec;
}
void sleepUs(long us) { struct timespec t{us / SEC, (us % SEC) * 1000}; nanosleep(&t, nullptr); }

unsigned openFds()
{
    unsigned n = 0;
    DIR* d = opendir("/proc/self/fd");
    if (!d) return 0;
    while (auto* e = readdir(d)) n += e->d_name[0] != '.';
    closedir(d);
    return n - 1;
}

// Waits for cond as long as progress() still changes or 25 s pass without any change.
// false = the awaited thing did not happen although the machine had ample time.
bool await(std::function<bool()> cond, std::function<uint64_t()> progress = {})
{
    long last = nowUs();
    uint64_t p = progress ? progress() : 0;
    long pause = 20;
    while (!cond())
    {
        sleepUs(pause);
        pause = std::min<long>(pause * 2, 2000);
        if (progress && progress() != p) { p = progress(); last = nowUs(); }
        if (nowUs() - last > 25 * SEC) return cond();
    }
    return true;
}

constexpr rx::ComponentId compBase = 7000;
constexpr unsigned numComps = 6;

// variable sized message; the component and message ids are carried by the type
struct Head
{
    uint32_t sender;
    uint32_t seq;
    uint32_t len;
    uint32_t kind;
    uint64_t sum;
};
uint64_t fold(uint8_t const* p, size_t n, uint64_t h) { for (size_t i = 0; i < n; ++i) { h ^= p[i]; h *= 1099511628211ull; } return h; }

constexpr unsigned kNormal = 0, kThrow = 1, kForward = 2, kBlock = 3, kThrowOdd = 4;

struct AnyMsg : public rx::MsgInterface
{
    rx::ComponentId comp;
    rx::MsgId id;
    std::size_t total;
    Head h;
    uint8_t payload[6000];
    rx::MsgId getMsgId() const final { return id; }
    rx::ComponentId getCompId() const final { return comp; }
    std::size_t size() const final { return total; }
};
constexpr size_t hdrSize = offsetof(AnyMsg, payload);

constexpr rx::MsgId idA = 9001, idB = 9002, idUnknown = 9099, idRun = 9050;

struct RunMsg : public rx::MsgInterface
{
    rx::ComponentId comp;
    std::function<void()>* fn;
    std::atomic<bool>* done;
    rx::MsgId getMsgId() const final { return idRun; }
    rx::ComponentId getCompId() const final { return comp; }
    std::size_t size() const final { return sizeof(RunMsg); }
};

void fill(AnyMsg& m, Rng& g, rx::ComponentId comp, rx::MsgId id, uint32_t sender, uint32_t seq, uint32_t kind, size_t total)
{
    m.comp = comp; m.id = id; m.total = total;
    m.h.sender = sender; m.h.seq = seq; m.h.kind = kind; m.h.len = total - hdrSize;
    uint64_t x = g.next();
    for (size_t i = 0; i < m.h.len; ++i) { m.payload[i] = (uint8_t)(x >> ((i & 7) * 8)); if ((i & 7) == 7) x = x * 6364136223846793005ull + 1442695040888963407ull; }
    m.h.sum = fold(m.payload, m.h.len, sender * 1000003ull + seq);
}

size_t pickSize(Rng& g)
{
    switch (g.below(6))
    {
    case 0: return hdrSize;
    case 1: return rx::maxMsgSize;
    case 2: return rx::maxMsgSize - g.below(24);
    case 3: return hdrSize + g.below(64);
    default: return hdrSize + g.below(rx::maxMsgSize - hdrSize);
    }
}

struct Perturb
{
    static std::atomic<uint64_t>& signalled() { static std::atomic<uint64_t> n{0}; return n; }
    static void timer(long us) { struct itimerval t{{0, us}, {0, us}}; setitimer(ITIMER_REAL, &t, nullptr); }
    bool sig;
    explicit Perturb(Rng& g)
    {
        perturbed = 0;
        perturb = g.pick({0u, 0u, 2u, 10u, 60u});
        // signals interrupt whatever system call a thread is in
        sig = g.chance(20);
        if (sig)
        {
            struct sigaction a{};
            a.sa_handler = [](int) { signalled().fetch_add(1, std::memory_order_relaxed); };
            sigaction(SIGALRM, &a, nullptr);
            timer(300 + g.below(2000));
        }
    }
    ~Perturb()
    {
        if (sig) timer(0);
        perturb = 0;
        vh::count("delays_injected", perturbed);
        vh::count("signals", signalled().exchange(0));
    }
};

struct Box;   // what one component saw

struct TestComp : public rx::ComponentInterface
{
    TestComp(rx::ComponentId i, rx::SenderInterface& s, rx::ReactorInterface& r) : id(i), snd(s), rea(r), canary(new uint64_t(0x5AFE5AFE)) {}
    ~TestComp() { *canary = 0; delete canary; }
    rx::ComponentId getCompId() const final { return id; }
    rx::SenderInterface& getSender() final { return snd; }
    rx::ReactorInterface& getReactor() final { return rea; }
    rx::ComponentId id;
    rx::SenderInterface& snd;
    rx::ReactorInterface& rea;
    uint64_t* canary;          // heap: a handler that outlives its component is seen by the sanitizer
    Rng rng{1};
    AnyMsg out;                // scratch of the handler
};

struct Box
{
    std::mutex m;
    std::map<uint32_t, std::deque<uint32_t>> got;   // per sender: sequence numbers in arrival order
    std::atomic<uint64_t> n{0};
    std::atomic<pid_t> tid{0};
    std::atomic<uint64_t> wrongThread{0}, corrupt{0}, afterStop{0}, wrongHandler{0};
    std::atomic<bool> block{false};
    std::atomic<bool> blocked{false};
};

pid_t gettid_() { return syscall(SYS_gettid); }

struct Sys
{
    std::unique_ptr<rx::ReactorManager> mgr;
    std::vector<rx::ReactorInterface*> reactors;
    std::vector<TestComp*> comps;
    std::vector<unsigned> reactorOf;
    std::vector<std::unique_ptr<Box>> boxes;
    std::vector<std::unique_ptr<std::atomic<uint32_t>>> reactorSeq;  // forwards sent from handlers
    std::atomic<bool> stoppedFlag{false};
    std::atomic<uint64_t> forwarded{0};
    std::atomic<int64_t> credit{0};

    Sys(Rng& g, unsigned nReactors, unsigned nComps)
    {
        mgr = std::make_unique<rx::ReactorManager>();
        std::vector<std::unique_ptr<rx::ReactorInterface>> rs;
        for (unsigned i = 0; i < nReactors; ++i)
        {
            rx::Reactor::Init init{i, 1, 0};
            rs.push_back(std::make_unique<rx::Reactor>(init));
            reactors.push_back(rs.back().get());
        }
        for (unsigned i = 0; i < nComps; ++i)
        {
            unsigned r = i % nReactors;
            auto c = std::make_unique<TestComp>(compBase + i, *mgr, *reactors[r]);
            comps.push_back(c.get());
            reactorOf.push_back(r);
            boxes.push_back(std::make_unique<Box>());
            c->rng = Rng(g.next());
            mgr->addComponent(std::move(c));
        }
        // an id that is taken already: the first one stays
        if (g.chance(15))
        {
            unsigned i = g.below(nComps), r = g.below(nReactors);
            try { mgr->addComponent(std::make_unique<TestComp>(compBase + i, *mgr, *reactors[r])); } catch (std::exception&) {}
            vh::count("duplicate_components");
        }
        // components that share a reactor share its handler table: one handler for both, told apart by the component id
        for (unsigned r = 0; r < nReactors; ++r)
        {
            auto mk = [this, r](rx::MsgId which) { return [this, r, which](rx::MsgInterface const& m) { handle(r, which, m); }; };
            if (g.chance(50)) { reactors[r]->registerHandler(idA, mk(idA)); reactors[r]->registerHandler(idB, mk(idB)); }
            else
            {
                rx::MsgHandlerVector v;
                v.emplace_back(idA, rx::MsgHandler(mk(idA)));
                v.emplace_back(idB, rx::MsgHandler(mk(idB)));
                reactors[r]->registerHandlers(v);
            }
            reactors[r]->registerHandler(idRun, [](rx::MsgInterface const& m)
            {
                auto& x = static_cast<RunMsg const&>(m);
                try { (*x.fn)(); } catch (vh::StopCase&) {}
                x.done->store(true);
            });
        }
        for (auto& r : rs) mgr->addReactor(std::move(r));
    }
    void handle(unsigned r, rx::MsgId which, rx::MsgInterface const& mi)
    {
        auto& m = static_cast<AnyMsg const&>(mi);
        unsigned ci = m.comp - compBase;
        if (ci >= boxes.size()) { vh::viol("corrupt", "message with a component id nobody used"); return; }
        Box& b = *boxes[ci];
        if (stoppedFlag) b.afterStop++;
        if (*comps[ci]->canary != 0x5AFE5AFE) vh::viol("dead-component", "handler runs on a destroyed component");
        if (m.id != which || reactorOf[ci] != r) b.wrongHandler++;
        pid_t t = gettid_(), old = 0;
        if (!b.tid.compare_exchange_strong(old, t) && old != t) b.wrongThread++;
        if (m.total != hdrSize + m.h.len || m.h.sum != fold(m.payload, m.h.len, m.h.sender * 1000003ull + m.h.seq)) b.corrupt++;
        {
            std::lock_guard<std::mutex> l(b.m);
            b.got[m.h.sender].push_back(m.h.seq);
        }
        if (m.h.kind != kForward) credit++;   // a forward keeps the place of the message that caused it
        if (m.h.kind == kForward) forwarded++;  // before it is counted as received
        b.n++;
        if (m.h.kind == kBlock)
        {
            b.blocked = true;
            while (b.block) sleepUs(200);
            b.blocked = false;
        }
        if (m.h.kind == kForward)
        {
            auto& c = *comps[ci];
            unsigned to = c.rng.below(comps.size());
            uint32_t s = 1000 + r * 16 + to;
            uint32_t q = (*reactorSeq[r * comps.size() + to])++;
            fill(c.out, c.rng, compBase + to, c.rng.chance(50) ? idA : idB, s, q, kNormal, pickSize(c.rng));
            c.snd.send(c.out);
        }
        if (m.h.kind == kThrow) throw std::runtime_error("handler failure");
        if (m.h.kind == kThrowOdd) throw std::logic_error(std::string(3000, 'x'));
    }
    uint64_t received() { uint64_t n = 0; for (auto& b : boxes) n += b->n; return n; }
};

void checkBoxes(Sys& s, bool allowGaps, std::map<std::pair<unsigned, uint32_t>, uint32_t> const& sent)
{
    for (unsigned i = 0; i < s.boxes.size(); ++i)
    {
        auto& b = *s.boxes[i];
        VCHECK(b.corrupt == 0, "corrupt", "component %u received %lu altered messages", i, (unsigned long)b.corrupt);
        VCHECK(b.wrongThread == 0, "wrong-thread", "component %u: %lu messages handled on another thread", i, (unsigned long)b.wrongThread);
        VCHECK(b.wrongHandler == 0, "wrong-handler", "component %u: %lu messages handled by another handler or reactor", i, (unsigned long)b.wrongHandler);
        std::lock_guard<std::mutex> l(b.m);
        for (auto& g : b.got)
        {
            auto it = sent.find({i, g.first});
            uint32_t total = it == sent.end() ? 0 : it->second;
            uint32_t next = 0;
            bool ok = true;
            for (auto q : g.second)
            {
                if (allowGaps ? q < next : q != next) { VCHECK(false, "order", "component %u sender %u: message %u arrives when %u is due (%u sent)", i, g.first, q, next, total); ok = false; break; }
                next = q + 1;
            }
            if (!ok) continue;
            VCHECK(next <= total, "invented", "component %u sender %u: %u messages arrived, %u were sent", i, g.first, next, total);
            if (!allowGaps) VCHECK(next == total, "lost", "component %u sender %u: %u of %u messages arrived", i, g.first, next, total);
        }
        if (!allowGaps)
            for (auto& x : sent)
                if (x.first.first == i && x.second && !b.got.count(x.first.second)) VCHECK(false, "lost", "component %u sender %u: none of %u messages arrived", i, x.first.second, x.second);
    }
}

// senders keep the number of undelivered messages below the mailbox size: nothing may be lost
void paced(Rng& g, bool endurance)
{
    Perturb pert(g);
    if (endurance) { perturb = 0; vh::count("endurance_runs"); }
    unsigned nr = endurance ? 1 : 1 + g.below(3), nc = endurance ? 1 : nr + g.below(numComps - nr + 1), ns = 1 + g.below(endurance ? 2 : 6);
    Sys s(g, nr, nc);
    for (unsigned i = 0; i < nr * nc; ++i) s.reactorSeq.push_back(std::make_unique<std::atomic<uint32_t>>(0));
    bool early = !endurance && g.chance(30);
    if (!early) s.mgr->start();
    s.credit = 56;
    unsigned per = endurance ? 68000 : 40 + g.below(400);
    unsigned throwPct = g.pick({0u, 5u, 40u}), fwdPct = g.pick({0u, 20u}), oddPct = g.pick({0u, 10u});
    std::vector<std::vector<uint32_t>> seqs(ns, std::vector<uint32_t>(nc, 0));
    std::vector<std::thread> ts;
    std::vector<uint64_t> seeds;
    std::atomic<bool> giveUp{false};
    for (unsigned i = 0; i < ns; ++i) seeds.push_back(g.next());
    for (unsigned t = 0; t < ns; ++t)
        ts.emplace_back([&, t]
        {
            Rng r(seeds[t]);
            auto m = std::make_unique<AnyMsg>();
            for (unsigned k = 0; k < per && !giveUp; ++k)
            {
                if (r.chance(oddPct))
                {
                    // each of these must leave everything else alone
                    switch (r.below(4))
                    {
                    case 0: fill(*m, r, 0x7fffff, idA, 500 + t, k, kNormal, pickSize(r)); s.mgr->send(*m); vh::count("sent_unknown_component"); break;
                    case 1: fill(*m, r, compBase + r.below(nc), idA, 500 + t, k, kNormal, rx::maxMsgSize + 1 + r.below(6000 - rx::maxMsgSize + hdrSize - 1)); s.mgr->send(*m); vh::count("sent_oversize"); break;
                    case 2: fill(*m, r, compBase + nc + r.below(50), idB, 500 + t, k, kNormal, pickSize(r)); s.mgr->send(*m); vh::count("sent_unknown_component"); break;
                    case 3:
                    {
                        // no handler: takes a place in the mailbox until it is popped; count it through a following message
                        if (early) break;
                        unsigned c = r.below(nc);
                        auto before = s.credit.fetch_sub(2);
                        if (before < 2) { s.credit += 2; break; }
                        fill(*m, r, compBase + c, idUnknown, 500 + t, k, kNormal, pickSize(r));
                        s.mgr->send(*m);
                        fill(*m, r, compBase + c, r.chance(50) ? idA : idB, t, seqs[t][c]++, kNormal, pickSize(r));
                        s.mgr->send(*m);
                        // give back the credit of the unhandled message only when the one behind it arrived
                        uint64_t want = seqs[t][c];
                        await([&]{ std::lock_guard<std::mutex> l(s.boxes[c]->m); return s.boxes[c]->got[t].size() >= want || giveUp; }, [&]{ return s.received(); });
                        s.credit++;
                        vh::count("sent_unhandled");
                        break;
                    }
                    }
                    continue;
                }
                // a credit is one place in any mailbox
                bool got = true;
                while (s.credit.fetch_sub(1) <= 0)
                {
                    s.credit++;
                    if (early) { got = false; break; }
                    if (giveUp) return;
                    sched_yield();
                }
                if (!got) break;
                unsigned c = r.below(nc);
                uint32_t kind = r.chance(throwPct) ? (r.chance(90) ? kThrow : kThrowOdd) : r.chance(fwdPct) ? kForward : kNormal;
                fill(*m, r, compBase + c, r.chance(50) ? idA : idB, t, seqs[t][c]++, kind, pickSize(r));
                vh::count("sent");
                s.mgr->send(*m);
            }
        });
    if (early) { for (auto& t : ts) t.join(); s.mgr->start(); }
    else
    {
        std::atomic<unsigned> live{ns};
        std::thread watch([&]
        {
            uint64_t p = s.received();
            long last = nowUs();
            while (live)
            {
                sleepUs(2000);
                if (s.received() != p) { p = s.received(); last = nowUs(); }
                if (nowUs() - last > 25 * SEC) { giveUp = true; return; }
            }
        });
        for (auto& t : ts) { t.join(); }
        live = 0;
        watch.join();
    }
    std::map<std::pair<unsigned, uint32_t>, uint32_t> sent;
    uint64_t total = 0;
    for (unsigned t = 0; t < ns; ++t) for (unsigned c = 0; c < nc; ++c) { sent[{c, t}] = seqs[t][c]; total += seqs[t][c]; }
    await([&]{ return s.received() >= total + s.forwarded; }, [&]{ return s.received(); });
    for (unsigned r = 0; r < nr; ++r) for (unsigned c = 0; c < nc; ++c) sent[{c, 1000 + r * 16 + c}] = *s.reactorSeq[r * nc + c];
    s.mgr->stop();
    checkBoxes(s, false, sent);
    vh::count("delivered", s.received());
    uint64_t h = 7;
    for (auto& b : s.boxes) for (auto& q : b->got) h = vh::hashMix(h, q.first * 131071 + q.second.size());
    vh::distinct("delivery_histories", h);
    if (vh::ctx.shard == 0) vh::sample(vh::fmt("paced: %u reactors %u components %u senders, %lu messages delivered, throw %u%%", nr, nc, ns, (unsigned long)s.received(), throwPct));
}

void r01Paced(Rng& g, uint64_t) { paced(g, false); }
// more messages than 16 bits count, for one component
void r01Endurance(Rng& g, uint64_t) { paced(g, true); }

// interleaving per component across senders, to show what schedules were seen
void r01Overload(Rng& g, uint64_t)
{
    Perturb pert(g);
    unsigned nr = 1 + g.below(2);
    Sys s(g, nr, nr);
    s.mgr->start();
    auto m = std::make_unique<AnyMsg>();
    auto& b = *s.boxes[0];
    std::map<std::pair<unsigned, uint32_t>, uint32_t> sent;
    unsigned rounds = 1 + g.below(4);
    uint32_t seq = 0;
    for (unsigned k = 0; k < rounds; ++k)
    {
        b.block = true;
        fill(*m, g, compBase, idA, 0, seq++, kBlock, pickSize(g));
        uint64_t base = b.n;
        s.mgr->send(*m);
        if (!await([&]{ return b.blocked.load(); })) { vh::viol("lost", "message to an idle reactor never arrives"); b.block = false; throw vh::StopCase(); }
        // the handler is stuck: the mailbox is empty now
        unsigned n = g.pick({10u, 63u, 64u, 65u, 100u, 200u, 500u});
        uint32_t first = seq;
        unsigned threads = 1 + g.below(3);
        std::vector<std::thread> ts;
        if (threads == 1)
            for (unsigned i = 0; i < n; ++i) { fill(*m, g, compBase, g.chance(50) ? idA : idB, 0, seq++, g.chance(10) ? kThrow : kNormal, pickSize(g)); s.mgr->send(*m); }
        else
        {
            std::vector<uint64_t> seeds;
            for (unsigned t = 0; t < threads; ++t) seeds.push_back(g.next());
            for (unsigned t = 0; t < threads; ++t)
                ts.emplace_back([&, t]
                {
                    Rng r(seeds[t]);
                    auto mm = std::make_unique<AnyMsg>();
                    for (unsigned i = 0; i < n; ++i) { fill(*mm, r, compBase, idA, 100 + k * 8 + t, i, kNormal, pickSize(r)); s.mgr->send(*mm); }
                });
            for (auto& t : ts) t.join();
            for (unsigned t = 0; t < threads; ++t) sent[{0, 100 + k * 8 + t}] = n;
        }
        unsigned all = n * threads;
        b.block = false;
        unsigned expect = std::min(all, 64u);
        bool ok = await([&]{ return b.n >= base + 1 + expect; }, [&]{ return b.n.load(); });
        VCHECK(ok, "lost", "%u messages pending for a mailbox of 64, only %lu arrived", all, (unsigned long)(b.n - base - 1));
        if (!ok) throw vh::StopCase();
        if (threads == 1)
        {
            std::lock_guard<std::mutex> l(b.m);
            auto& q = b.got[0];
            unsigned inPrefix = 0;
            for (auto x : q) if (x >= first && x < first + expect) ++inPrefix;
            VCHECK(inPrefix == expect, "dropped-early", "only %u of the first %u messages arrived although the mailbox had room for them", inPrefix, expect);
        }
        vh::count("overloads", all > 64);
        vh::maxi("pending", all);
    }
    // still fully usable
    sent[{0, 0}] = seq;
    uint64_t base = b.n;
    for (unsigned i = 0; i < 50; ++i) { fill(*m, g, compBase, idA, 77, i, kNormal, pickSize(g)); s.mgr->send(*m); }
    sent[{0, 77}] = 50;
    bool ok = await([&]{ std::lock_guard<std::mutex> l(b.m); return b.got[77].size() >= 50; }, [&]{ return b.n.load(); });
    VCHECK(ok, "lost", "after an overload only %zu of 50 messages arrive", b.got[77].size());
    s.mgr->stop();
    checkBoxes(s, true, sent);
    (void)base;
    vh::distinct("overload_histories", vh::hashMix(seq, b.n));
}

// senders that never wait: messages may be dropped, but what arrives is whole, in order, and once
void r01Flood(Rng& g, uint64_t)
{
    Perturb pert(g);
    Sys s(g, 1, 1);
    s.mgr->start();
    auto& b = *s.boxes[0];
    std::map<std::pair<unsigned, uint32_t>, uint32_t> sent;
    unsigned threads = 2 + g.below(4), n = 150 + g.below(500);
    bool big = g.chance(60);
    std::vector<uint64_t> seeds;
    for (unsigned t = 0; t < threads; ++t) seeds.push_back(g.next());
    std::vector<std::thread> ts;
    std::atomic<unsigned> ready{0};
    for (unsigned t = 0; t < threads; ++t)
    {
        sent[{0, t}] = n;
        ts.emplace_back([&, t]
        {
            Rng r(seeds[t]);
            std::vector<std::unique_ptr<AnyMsg>> mm;
            for (unsigned i = 0; i < 8; ++i) mm.push_back(std::make_unique<AnyMsg>());
            ready++;
            while (ready < threads) {}
            for (unsigned i = 0; i < n; i += 8)
            {
                for (unsigned k = 0; k < 8 && i + k < n; ++k) fill(*mm[k], r, compBase, idA, t, i + k, r.chance(3) ? kThrow : kNormal, big ? rx::maxMsgSize - r.below(40) : pickSize(r));
                for (unsigned k = 0; k < 8 && i + k < n; ++k) s.mgr->send(*mm[k]);
            }
        });
    }
    for (auto& t : ts) t.join();
    auto m = std::make_unique<AnyMsg>();
    uint32_t q = 0;
    auto arrived = [&]{ std::lock_guard<std::mutex> l(b.m); return !b.got[77].empty(); };
    bool ok = await([&]{ if (arrived()) return true; if (q < 20000) { fill(*m, g, compBase, idA, 77, q++, kNormal, pickSize(g)); s.mgr->send(*m); } return false; });
    sent[{0, 77}] = q;
    VCHECK(ok, "lost", "after a flood no message arrives any more");
    s.mgr->stop();
    VCHECK(b.n >= std::min(64u, threads * n), "lost", "%lu of %u messages arrived", (unsigned long)b.n, threads * n);
    checkBoxes(s, true, sent);
    vh::count("floods");
    vh::count("flood_delivered", b.n);
    vh::count("flood_dropped", b.n < threads * n ? threads * n - b.n : 0);
    vh::distinct("delivery_histories", vh::hashMix(b.n, threads * 1000 + n));
}

// ------------------------------------------------------------------ R02
void logStorm(Rng& r)
{
    std::string big(r.below(3000), 'a' + r.below(26));
    switch (r.below(5))
    {
    case 0: LM(GEN, LE, "storm %s", big.c_str()); break;
    case 1: LM(UA, LW, "storm %d %s %zu", (int)r.below(1000), "short", big.size()); break;
    case 2: LM(UASC, LD, "%s", big.c_str()); break;
    case 3: LM(UATL, LI, "x%.*s", 1023 - (int)r.below(4), big.c_str()); break;
    default: LM(MODBUS, LE, "plain"); break;
    }
}

void r02Storm(Rng& g, uint64_t)
{
    Perturb pert(g);
    unsigned nr = 1 + g.below(3), nc = nr + g.below(numComps - nr + 1), ns = 1 + g.below(4), nl = g.below(3);
    auto sp = std::make_unique<Sys>(g, nr, nc);
    Sys& s = *sp;
    for (unsigned i = 0; i < nr * nc; ++i) s.reactorSeq.push_back(std::make_unique<std::atomic<uint32_t>>(0));
    std::atomic<bool> end{false};
    std::vector<std::thread> ts;
    std::vector<uint64_t> seeds;
    for (unsigned i = 0; i < ns + nl; ++i) seeds.push_back(g.next());
    std::atomic<uint64_t> sentN{0}, logged{0};
    // timers owned by "components" keep firing and sending
    struct Ticker { rx::TimerPtr t; std::atomic<uint64_t> n{0}; Rng r{1}; AnyMsg m; uint32_t q = 0; };
    std::vector<std::unique_ptr<Ticker>> ticks;
    std::atomic<uint64_t> afterStop{0};
    for (unsigned i = 0; i < g.below(4); ++i)
    {
        ticks.push_back(std::make_unique<Ticker>());
        auto* k = ticks.back().get();
        k->r = Rng(g.next());
        unsigned ri = i % nr;
        k->t = s.reactors[ri]->createTimer([&s, k, nc, &afterStop, i]
        {
            if (s.stoppedFlag) afterStop++;
            k->n++;
            fill(k->m, k->r, compBase + k->r.below(nc), idA, 3000 + i, k->q++, kNormal, pickSize(k->r));
            s.mgr->send(k->m);
            k->t->start(k->r.below(2000));
        });
        k->t->start(k->r.below(500));
    }
    bool started = !g.chance(8);
    if (started) s.mgr->start();
    for (unsigned t = 0; t < ns; ++t)
        ts.emplace_back([&, t]
        {
            Rng r(seeds[t]);
            auto m = std::make_unique<AnyMsg>();
            uint32_t q = 0;
            while (!end)
            {
                fill(*m, r, compBase + r.below(nc + (r.chance(5) ? 3 : 0)), r.chance(95) ? (r.chance(50) ? idA : idB) : idUnknown, t, q++, r.chance(30) ? kForward : r.chance(10) ? kThrow : kNormal, pickSize(r));
                s.mgr->send(*m);
                sentN++;
                if (r.chance(10)) logStorm(r);
                if (r.chance(20)) sched_yield();
                if (r.chance(3)) sleepUs(r.below(500));
            }
        });
    for (unsigned t = 0; t < nl; ++t)
        ts.emplace_back([&, t]
        {
            Rng r(seeds[ns + t]);
            while (!end) { logStorm(r); logged++; if (r.chance(20)) sleepUs(r.below(300)); }
        });
    sleepUs(g.below(g.pick({200, 2000, 12000})));
    bool explicitStop = g.chance(75);
    if (explicitStop)
    {
        s.mgr->stop();
        s.stoppedFlag = true;
        if (g.chance(30)) s.mgr->stop();
        sleepUs(g.below(3000));
        uint64_t late = afterStop;
        for (auto& b : s.boxes) late += b->afterStop;
        VCHECK(late == 0, "handler-after-stop", "%lu handlers ran after stop had returned", (unsigned long)late);
        vh::count("explicit_stops");
    }
    struct Run { std::function<void()> fn; std::atomic<bool> done{false}; };
    std::vector<std::unique_ptr<Run>> runs;
    // the senders must not use a manager that is being destroyed; handlers of running reactors go on
    end = true;
    for (auto& t : ts) t.join();
    // without an explicit stop the timers stay with the case: they are given back while the reactors run down
    if (!explicitStop)
    {
        // owners drop their timers on the reactor's own thread, as components do
        if (started)
        {
            for (unsigned i = 0; i < ticks.size(); ++i)
            {
                auto* k = ticks[i].get();
                runs.push_back(std::make_unique<Run>());
                auto* x = runs.back().get();
                x->fn = [k]{ k->t.reset(); };
                RunMsg rm; rm.comp = compBase + i % nr; rm.fn = &x->fn; rm.done = &x->done;
                // the mailbox may still be full, then the message is dropped
                for (unsigned n = 0; n < 300 && !x->done; ++n)
                {
                    s.mgr->send(rm);
                    long t0 = nowUs();
                    while (!x->done && nowUs() - t0 < 100 * MS) sleepUs(100);
                }
                if (!x->done) { vh::viol("hang", "reactor does not handle messages any more"); _exit(99); }
            }
        }
        else ticks.clear();
    }
    vh::count("storm_sent", sentN);
    vh::count("storm_logged", logged);
    vh::count("storm_delivered", s.received());
    vh::distinct("storm_histories", vh::hashMix(vh::hashMix(s.received(), s.forwarded), nr * 8 + ns));
    if (explicitStop) ticks.clear();
    sp->mgr.reset();     // destroys components, then reactors (and stops them when that was not done)
    vh::count("teardowns");
    if (vh::ctx.shard == 0) vh::sample(vh::fmt("storm: %u reactors %u components %u senders %u loggers, sent %lu delivered %lu, stop %s", nr, nc, ns, nl, (unsigned long)sentN, (unsigned long)s.received(), explicitStop ? "explicit" : "by destruction"));
}

// ------------------------------------------------------------------ a single reactor driven by code on its own thread
struct One
{
    std::unique_ptr<rx::ReactorManager> mgr;
    rx::ReactorInterface* r = nullptr;
    One()
    {
        mgr = std::make_unique<rx::ReactorManager>();
        rx::Reactor::Init init{0, 1, 0};
        auto re = std::make_unique<rx::Reactor>(init);
        r = re.get();
        mgr->addComponent(std::make_unique<TestComp>(compBase, *mgr, *re));
        re->registerHandler(idRun, [](rx::MsgInterface const& m)
        {
            auto& x = static_cast<RunMsg const&>(m);
            try { (*x.fn)(); } catch (vh::StopCase&) {}
            x.done->store(true);
        });
        mgr->addReactor(std::move(re));
        mgr->start();
    }
    ~One() { mgr->stop(); }
    void run(std::function<void()> fn)
    {
        std::atomic<bool> done{false};
        RunMsg m;
        m.comp = compBase; m.fn = &fn; m.done = &done;
        mgr->send(m);
        if (!await([&]{ return done.load(); })) { vh::viol("hang", "reactor thread does not answer"); fprintf(stderr, "reactor stuck\n"); _exit(99); }
    }
};

// ------------------------------------------------------------------ R03
struct Timers
{
    struct T
    {
        rx::TimerPtr p;
        int fd = -1;
        bool armed = false;
        long startNs = 0, interval = 0;
        uint64_t gen = 0;
        unsigned idx = 0;
        uint64_t life = 0;
    };
    One& o;
    Rng& g;
    std::vector<std::unique_ptr<T>> ts;
    std::atomic<uint64_t> fired{0}, armed{0};
    uint64_t lives = 0;
    bool closing = false;
    uint64_t order = 17;
    unsigned sameBatch = 0;
    std::atomic<long> lastDue{0};

    Timers(One& oo, Rng& gg) : o(oo), g(gg) {}

    void create(unsigned i)
    {
        auto& t = *ts[i];
        uint64_t life = ++lives;
        // captures more than fits into the handler object: a handler destroyed while it runs is seen
        struct Big { Timers* s; unsigned i; uint64_t life; uint64_t pad[8]; } big{this, i, life, {1, 2, 3, 4, 5, 6, 7, 8}};
        lastTimerFd = -1;
        t.p = o.r->createTimer([big]
        {
            big.s->onFire(big.i, big.life);
            if (big.pad[3] != 4 || big.pad[7] != 8) vh::viol("handler-destroyed", "a timer handler was destroyed while it ran");
        });
        t.fd = lastTimerFd;
        t.life = life;
        t.armed = false;
        for (auto& x : ts) if (x.get() != &t && x->p && t.p && x->p.get() == t.p.get()) vh::viol("shared-timer", "two owners got the same timer");
    }
    void start(unsigned i, long iv)
    {
        auto& t = *ts[i];
        if (!t.p) return;
        bool was = t.armed;
        long a = nowNs();
        t.p->start(iv);
        long b = nowNs();
        t.armed = true; t.startNs = a; t.interval = iv;
        if (!was) armed++;
        lastDue = std::max(lastDue.load(), b + iv * 1000);
        vh::count("timer_starts");
        if (was) vh::count("timer_restarts");
        if (t.fd >= 0)
        {
            // what the kernel was really asked for
            struct itimerspec s;
            if (timerfd_gettime(t.fd, &s) == 0)
            {
                long rem = s.it_value.tv_sec * 1000000000L + s.it_value.tv_nsec;
                long c = nowNs();
                if (rem != 0)
                {
                    VCHECK(rem >= iv * 1000 - (c - a) , "armed-early", "interval %ld us: %ld ns left %ld ns after the start", iv, rem, c - a);
                    VCHECK(rem <= iv * 1000 + 1000, "armed-late", "interval %ld us: %ld ns left after the start", iv, rem);
                }
                else VCHECK(c - a >= iv * 1000, "armed-early", "interval %ld us has passed %ld ns after the start", iv, c - a);
                VCHECK(s.it_interval.tv_sec == 0 && s.it_interval.tv_nsec == 0, "periodic", "timer is armed periodically");
                vh::count("deadlines_checked");
            }
        }
    }
    void stop(unsigned i)
    {
        auto& t = *ts[i];
        if (!t.p) return;
        t.p->stop();
        if (t.armed) { armed--; vh::count("timer_stops"); }
        t.armed = false;
    }
    void release(unsigned i)
    {
        auto& t = *ts[i];
        if (t.armed) { armed--; vh::count("timer_releases_armed"); }
        t.armed = false;
        t.life = 0;
        t.p.reset();
    }
    void onFire(unsigned i, uint64_t life)
    {
        long now = nowNs();
        auto& t = *ts[i];
        if (t.life != life) { VCHECK(false, "fired-after-release", "timer %u fires although it was released", i); return; }
        VCHECK(t.armed, "fired-unarmed", "timer %u fires although it is not running (stopped, or fired already)", i);
        if (!t.armed) return;
        VCHECK(now - t.startNs >= t.interval * 1000, "fired-early", "timer %u with interval %ld us fires after %ld ns", i, t.interval, now - t.startNs);
        t.armed = false;
        armed--;
        fired++;
        vh::count("timer_fires");
        order = vh::hashMix(order, i);
        if (closing) return;
        unsigned n = g.chance(50) ? g.below(3) : 0;
        for (unsigned k = 0; k < n; ++k) action(g.chance(30) ? i : g.below(ts.size()));
        if (g.chance(5)) throw std::runtime_error("timer handler");
    }
    long interval()
    {
        switch (g.below(12))
        {
        case 0: return 0;
        case 1: return 1;
        case 2: return g.below(100);
        case 3: return 1000 * g.below(8);
        case 4: return 999 + g.below(3);
        default: return g.below(6000);
        }
    }
    void action(unsigned i)
    {
        auto& t = *ts[i];
        if (!t.p) { if (g.chance(70)) create(i); return; }
        switch (g.below(6))
        {
        case 0: stop(i); break;
        case 1: release(i); break;
        case 2: release(i); create(i); if (g.chance(60)) start(i, interval()); break;
        default: start(i, interval()); break;
        }
    }
};

void r03Timers(Rng& g, uint64_t)
{
    One o;
    Rng hg(g.next());     // the reactor thread has its own
    Timers s(o, hg);
    unsigned n = g.chance(30) ? 32 : 1 + g.below(12);
    for (unsigned i = 0; i < n; ++i) { s.ts.push_back(std::make_unique<Timers::T>()); s.ts.back()->idx = i; }
    unsigned rounds = 2 + g.below(5);
    o.run([&]{ for (unsigned i = 0; i < n; ++i) s.create(i); });
    for (unsigned r = 0; r < rounds; ++r)
    {
        o.run([&]
        {
            unsigned acts = 1 + g.below(2 * n);
            bool together = g.chance(60);
            long base = g.below(2500);
            for (unsigned k = 0; k < acts; ++k)
            {
                unsigned i = g.below(n);
                if (together && s.ts[i]->p) s.start(i, std::max<long>(0, base - k));
                else s.action(i);
            }
            // the loop is late: many timers are due in one go, and their handlers act on each other
            if (together) { sleepUs(base + 500 + g.below(1500)); vh::count("due_together"); }
            if (g.chance(30)) { unsigned i = g.below(n); s.stop(i); }
            if (g.chance(30)) { unsigned i = g.below(n); if (s.ts[i]->p) s.start(i, s.interval()); }
        });
        sleepUs(g.below(4000));
    }
    o.run([&]{ s.closing = true; });
    bool ok = await([&]{ return s.armed == 0; }, [&]{ return s.fired.load(); });
    if (!ok) o.run([&]
    {
        for (unsigned i = 0; i < n; ++i) if (s.ts[i]->armed) { VCHECK(false, "never-fired", "timer %u with interval %ld us has not fired", i, s.ts[i]->interval); break; }
    });
    vh::count("checks");
    // quiet now: a further start works, nothing comes back from the past
    o.run([&]{ for (unsigned i = 0; i < n; ++i) { if (!s.ts[i]->p) s.create(i); if (g.chance(50)) s.start(i, g.below(1500)); } });
    await([&]{ return s.armed == 0; }, [&]{ return s.fired.load(); });
    sleepUs(500);
    if (vh::ctx.shard == 0) vh::sample(vh::fmt("%u timers, %lu fired", n, (unsigned long)s.fired.load()));
    o.run([&]{ for (unsigned i = 0; i < n; ++i) s.release(i); vh::distinct("fire_orders", s.order); });
}

// long intervals: the deadline handed to the kernel is what was asked for
void r03Long(Rng& g, uint64_t)
{
    One o;
    o.run([&]
    {
        Timers s(o, g);
        s.ts.push_back(std::make_unique<Timers::T>());
        s.create(0);
        for (unsigned k = 0; k < 40; ++k)
        {
            long iv;
            switch (g.below(5))
            {
            case 0: iv = (1L << (21 + g.below(30))) + g.range(-2, 2); break;
            case 1: iv = SEC * (1 + g.below(100000)); break;
            case 2: iv = SEC * g.below(5000) + g.below(SEC); break;
            case 3: iv = g.pick<long>({2147483, 2147484, 2147483647, 2147483648L, 4294967, 4294968, 4294967295L, 4294967296L, 999999, 1000000, 1000001, 86400L * SEC, 365L * 86400 * SEC}); break;
            default: iv = 10 * SEC + g.below(1L << 45); break;
            }
            if (iv < SEC / 2) iv = SEC;
            s.start(0, iv);
            s.lastDue = 0;
            if (g.chance(30)) { s.stop(0); struct itimerspec x; if (s.ts[0]->fd >= 0 && timerfd_gettime(s.ts[0]->fd, &x) == 0) VCHECK(x.it_value.tv_sec == 0 && x.it_value.tv_nsec == 0, "stop-ignored", "timer still runs after stop"); }
            vh::distinct("intervals", iv);
            vh::count("long_intervals");
        }
        s.release(0);
    });
}

// ------------------------------------------------------------------ sockets
rx::LinkAddr mkAddr(unsigned ip, unsigned port)
{
    rx::LinkAddr r{};
    r.type = rx::LinkAddr::Type::ipv4;
    r.data[0] = (char)(ip >> 24); r.data[1] = (char)(ip >> 16); r.data[2] = (char)(ip >> 8); r.data[3] = (char)ip;
    r.data[4] = (char)(port >> 8); r.data[5] = (char)port;
    return r;
}
struct Peer
{
    int ls = -1;
    uint32_t ip = 0;
    uint16_t port = 0;
    ~Peer() { if (ls >= 0) ::close(ls); }
    bool open(uint32_t i, uint16_t wantPort = 0, int backlog = 64)
    {
        ip = i;
        ls = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        int one = 1;
        setsockopt(ls, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        struct sockaddr_in a{};
        a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(ip); a.sin_port = htons(wantPort);
        if (::bind(ls, (sockaddr*)&a, sizeof a) || ::listen(ls, backlog)) { ::close(ls); ls = -1; return false; }
        socklen_t l = sizeof a;
        getsockname(ls, (sockaddr*)&a, &l);
        port = ntohs(a.sin_port);
        return true;
    }
    int acc(long ms = 20000)
    {
        struct pollfd p{ls, POLLIN, 0};
        if (poll(&p, 1, ms) <= 0) return -1;
        return ::accept(ls, nullptr, nullptr);
    }
};
uint32_t loop(Rng& g) { return (127u << 24) | (uint32_t)(g.below(256) << 16) | (uint32_t)(g.below(256) << 8) | (uint32_t)(1 + g.below(254)); }
int dial(uint32_t ip, uint16_t port, long timeoutMs = 0)
{
    int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    struct sockaddr_in a{};
    a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(ip); a.sin_port = htons(port);
    if (timeoutMs) { struct timeval tv{0, timeoutMs * 1000}; setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv); } // backlog may be full
    if (::connect(fd, (sockaddr*)&a, sizeof a)) { ::close(fd); return -1; }
    return fd;
}
void hardClose(int fd) { struct linger l{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); ::close(fd); }

// a listening address nobody else uses; a free port is found by asking the kernel
uint16_t freePort(uint32_t ip) { Peer p; return p.open(ip) ? p.port : 0; }

// every address and port reaches the socket layer unchanged
void r04Address(Rng& g, uint64_t)
{
    One o;
    o.run([&]
    {
        recordAddr = true;
        auto l = o.r->createLink([](rx::LinkEvent) {});
        auto a = o.r->createAcceptor([] {});
        for (unsigned k = 0; k < 60; ++k)
        {
            uint32_t ip = g.chance(30) ? g.pick<uint32_t>({0x7f000001, 0x80808080, 0xffffffff, 0x00000000, 0xc0a80164, 0x0a0000ff, 0xff00ff00, 0x7fffffff, 0x01020380}) : (uint32_t)g.next();
            uint16_t port = g.chance(40) ? g.pick<uint16_t>({0x7fff, 0x8000, 0x80ff, 0xff80, 0xffff, 502, 4369, 0x0080, 0x00ff, 0xff00, 1}) : (uint16_t)g.next();
            refuseForeign = true;
            lastConnect = lastBind = {};
            bool threw = false;
            try { l->connect(mkAddr(ip, port)); } catch (std::exception&) { threw = true; }
            if (lastConnect.set)
                VCHECK(lastConnect.ip == ip && lastConnect.port == port, "connect-address", "asked to connect to %08x:%u, connects to %08x:%u", ip, port, lastConnect.ip, lastConnect.port);
            VCHECK(threw, "refusal-unreported", "a connect that failed at once is not reported");
            threw = false;
            try { a->listen(mkAddr(ip, port)); } catch (std::exception&) { threw = true; }
            if (lastBind.set)
                VCHECK(lastBind.ip == ip && lastBind.port == port, "listen-address", "asked to listen on %08x:%u, listens on %08x:%u", ip, port, lastBind.ip, lastBind.port);
            VCHECK(threw, "refusal-unreported", "a listen that failed is not reported");
            refuseForeign = false;
            vh::count("addresses", 2);
            vh::distinct("addresses", ((uint64_t)ip << 16) | port);
        }
        recordAddr = false;
    });
}

struct LinkUser
{
    rx::LinkPtr l;
    Rng* g = nullptr;
    unsigned connected = 0, errors = 0, ends = 0, datas = 0;
    bool open = false, everOpen = false, throwy = false;
    bool wantEvents = false;    // events are legitimate now
    uint64_t life = 0;
    Bytes in, out;              // received / accepted for sending
    Bytes lastFailed;           // chunk whose sending was reported as failed
    bool sendFailed = false;
    std::atomic<uint64_t> inN{0};
    std::atomic<bool> over{false}, up{false};
    size_t rdMax = 4096;
};

void onLink(One& o, LinkUser& u, uint64_t life, rx::LinkEvent e)
{
    vh::count(e == rx::LinkEvent::connected ? "ev_connected" : e == rx::LinkEvent::data ? "ev_data" : "ev_error");
    if (u.life != life || !u.wantEvents) { VCHECK(false, "stale-event", "event %d is delivered to a link that was dropped, closed or never connected", (int)e); return; }
    switch (e)
    {
    case rx::LinkEvent::connected:
        u.connected++;
        VCHECK(u.connected == 1, "connected-twice", "link reports being connected %u times", u.connected);
        u.open = u.everOpen = true;
        u.up = true;
        break;
    case rx::LinkEvent::error:
        u.errors++;
        u.open = false; u.wantEvents = false; u.over = true;
        break;
    case rx::LinkEvent::data:
    {
        u.datas++;
        VCHECK(u.open, "data-before-connected", "data event before the link was reported connected");
        uint8_t buf[8192];
        while (true)
        {
            size_t n = 1 + u.g->below(u.rdMax);
            auto r = u.l->receive(buf, n);
            if (r.status == rx::LinkResult::ok)
            {
                VCHECK(r.len > 0 && (size_t)r.len <= n, "receive-length", "receive of up to %zu bytes reports %d", n, r.len);
                if (r.len <= 0) break;
                u.in.insert(u.in.end(), buf, buf + r.len);
                u.inN += r.len;
                continue;
            }
            if (r.status == rx::LinkResult::na) break;
            if (r.status == rx::LinkResult::closed) u.ends++; else u.errors++;
            u.open = false; u.wantEvents = false; u.over = true;
            u.l->close();
            break;
        }
        break;
    }
    }
    if (u.throwy && u.g->chance(10)) throw std::runtime_error("link handler");
}
uint64_t lifeGen = 0;
void mkLink(One& o, LinkUser& u, Rng& g)
{
    uint64_t life = ++lifeGen;
    u.g = &g;
    u.life = life;
    struct Big { One* o; LinkUser* u; uint64_t life; uint64_t pad[8]; } big{&o, &u, life, {1, 2, 3, 4, 5, 6, 7, 8}};
    u.l = o.r->createLink([big](rx::LinkEvent e)
    {
        onLink(*big.o, *big.u, big.life, e);
        if (big.pad[7] != 8) vh::viol("handler-destroyed", "a link handler was destroyed while it ran");
    });
}

// the other end, within this process, of a connection
int otherEnd(int fd)
{
    struct sockaddr_in a{}, b{};
    socklen_t n = sizeof a;
    if (getsockname(fd, (struct sockaddr*)&a, &n)) return -1;
    int found = -1;
    DIR* d = opendir("/proc/self/fd");
    if (!d) return -1;
    while (auto* e = readdir(d))
    {
        int k = atoi(e->d_name);
        n = sizeof b;
        if (e->d_name[0] != '.' && k != fd && !getpeername(k, (struct sockaddr*)&b, &n) && b.sin_family == AF_INET && b.sin_port == a.sin_port && b.sin_addr.s_addr == a.sin_addr.s_addr) found = k;
    }
    closedir(d);
    return found;
}

// one stream in both directions against a peer that splits, delays, stops reading, half-closes, closes or resets
void r04Stream(Rng& g, uint64_t)
{
    Rng hg(g.next());
    One o;
    LinkUser u;
    u.rdMax = g.pick<size_t>({1, 7, 260, 4096, 8192});
    u.throwy = g.chance(20);
    bool accepted = g.chance(50);
    int pfd = -1;
    Peer peer;
    rx::AcceptorPtr acc;
    uint32_t ip = loop(g);
    std::atomic<int> accEvents{0};
    if (!accepted)
    {
        if (!peer.open(ip)) return;
        if (g.chance(8)) { uint16_t p = peer.port; ::close(peer.ls); peer.ls = -1;
            // nobody listens: the owner is told
            o.run([&]{ mkLink(o, u, hg); u.wantEvents = true; try { u.l->connect(mkAddr(ip, p)); } catch (std::exception&) { u.over = true; } });
            bool ok = await([&]{ return u.over.load(); });
            VCHECK(ok, "refusal-unreported", "connect to a closed port is never reported as failed");
            VCHECK(u.connected == 0, "refused-connected", "connect to a closed port reported as connected");
            vh::count("refused");
            o.run([&]{ u.life = 0; u.l.reset(); });
            return; }
        bool early = g.chance(40);
        std::thread t([&] { pfd = peer.acc(); if (pfd >= 0 && early) { uint8_t b[3] = {1, 2, 3}; if (::send(pfd, b, 3, MSG_NOSIGNAL) == 3) {} } });
        o.run([&]{ mkLink(o, u, hg); u.wantEvents = true; try { u.l->connect(mkAddr(ip, peer.port)); } catch (std::exception&) { u.over = true; } if (g.chance(50)) sleepUs(g.below(2000)); });
        t.join();
        VCHECK(pfd >= 0, "not-connected", "link does not connect to the listening peer %08x:%u", ip, peer.port);
        if (pfd < 0) { o.run([&]{ u.life = 0; u.l.reset(); }); return; }
        bool ok = await([&]{ return u.up.load() || u.over.load(); });
        VCHECK(ok && u.up, "connect-unreported", "established connection is never reported");
        if (early && ok)
        {
            ok = await([&]{ return u.inN >= 3; });
            VCHECK(ok, "stream-in", "data that came with the connection is not delivered");
            o.run([&]{ if (u.in.size() == 3) { VCHECK(u.in == (Bytes{1, 2, 3}), "stream-in", "bytes changed"); u.in.clear(); u.inN = 0; vh::count("early_data"); } });
        }
    }
    else
    {
        uint16_t port = freePort(ip);
        bool ok = true;
        std::atomic<bool> got{false};
        o.run([&]
        {
            mkLink(o, u, hg);
            acc = o.r->createAcceptor([&]
            {
                accEvents++;
                u.wantEvents = true; u.open = u.everOpen = true;
                acc->accept(*u.l);
                u.up = true;
                got = true;
            });
            try { acc->listen(mkAddr(ip, port)); } catch (std::exception&) { ok = false; }
        });
        if (!ok) { o.run([&]{ acc.reset(); u.life = 0; u.l.reset(); }); return; }
        pfd = dial(ip, port);
        VCHECK(pfd >= 0, "not-listening", "cannot connect to the listener %08x:%u", ip, port);
        if (pfd < 0) { o.run([&]{ acc.reset(); u.life = 0; u.l.reset(); }); return; }
        bool a = await([&]{ return got.load(); });
        VCHECK(a, "accept-unreported", "incoming connection is never reported");
        if (!a) { ::close(pfd); return; }
    }
    // exchange
    Bytes peerSent, peerGot;
    auto pump = [&](bool blocking)
    {
        uint8_t b[16384];
        while (true)
        {
            ssize_t n = recv(pfd, b, sizeof b, blocking ? 0 : MSG_DONTWAIT);
            if (n <= 0) return n;
            peerGot.insert(peerGot.end(), b, b + n);
        }
    };
    unsigned acts = 3 + g.below(25);
    unsigned stall = g.chance(15) ? acts : 0;
    bool peerGone = false;
    for (unsigned k = 0; k < acts && !peerGone; ++k)
    {
        unsigned a = g.below(100);
        if (stall)
        {
            // the peer does not read: sending must fail rather than lose bytes
            bool failed = false;
            o.run([&]
            {
                for (unsigned i = 0; i < 4000 && u.open && !failed; ++i)
                {
                    Bytes d(1 + g.below(8192));
                    for (auto& x : d) x = g.next();
                    int rc = u.l->send(d.data(), d.size());
                    if (rc > 0) u.out.insert(u.out.end(), d.begin(), d.end());
                    else { u.sendFailed = failed = true; u.lastFailed = d; vh::count("send_refused"); }
                }
            });
            break;
        }
        if (a < 45)
        {
            Bytes d(g.chance(10) ? g.below(60000) : 1 + g.below(600));
            for (auto& x : d) x = g.next();
            size_t off = 0;
            while (off < d.size())
            {
                size_t n = g.chance(50) ? d.size() - off : 1 + g.below(d.size() - off);
                ssize_t r = ::send(pfd, d.data() + off, n, MSG_NOSIGNAL);
                if (r <= 0) break;
                off += r;
                if (g.chance(10)) sleepUs(g.below(500));
            }
            peerSent.insert(peerSent.end(), d.begin(), d.begin() + off);
        }
        else if (a < 85)
        {
            o.run([&]
            {
                if (!u.open) return;
                Bytes d(1 + g.below(g.chance(10) ? 9000 : 300));
                for (auto& x : d) x = g.next();
                int rc = u.l->send(d.data(), d.size());
                if (rc > 0) u.out.insert(u.out.end(), d.begin(), d.end());
                else { u.sendFailed = true; u.lastFailed = d; u.open = false; u.wantEvents = false; u.over = true; u.l->close(); }
            });
        }
        else if (a < 93) pump(false);
        else sleepUs(g.below(1500));
    }
    // all the peer wrote arrives
    if (!u.over)
    {
        bool ok = await([&]{ return u.inN >= peerSent.size() || u.over; }, [&]{ return u.inN.load(); });
        VCHECK(ok, "stream-in", "%lu of %zu bytes written by the peer arrive", (unsigned long)u.inN.load(), peerSent.size());
    }
    unsigned ending = g.below(5);
    if (u.sendFailed) ending = 3;
    vh::count(vh::fmt("ending_%u", ending));
    switch (ending)
    {
    case 0:   // orderly close by the peer, possibly with unread data behind
    {
        if (g.chance(50)) { uint8_t b[5] = {9, 8, 7, 6, 5}; if (::send(pfd, b, 5, MSG_NOSIGNAL) == 5) peerSent.insert(peerSent.end(), b, b + 5); }
        pump(false);
        ::shutdown(pfd, SHUT_WR);
        bool ok = await([&]{ return u.over.load(); });
        VCHECK(ok, "close-unreported", "the peer closed, the owner of the link is never told");
        o.run([&]{ VCHECK(!ok || u.in == peerSent || u.sendFailed || u.errors, "stream-in", "%zu bytes arrive, the peer wrote %zu before closing", u.in.size(), peerSent.size()); });
        break;
    }
    case 1:   // reset
    {
        hardClose(pfd);
        pfd = -1;
        bool ok = await([&]{ return u.over.load(); });
        VCHECK(ok, "reset-unreported", "the peer reset the connection, the owner of the link is never told");
        // the process survives writing to it
        o.run([&]{ if (u.l) { uint8_t b[4] = {}; int rc = u.l->send(b, 4); VCHECK(rc <= 0, "send-to-nowhere", "sending on a closed link is reported as done"); } });
        break;
    }
    case 2:   // peer vanishes, the link writes before it looks
    {
        o.run([&]
        {
            if (!u.open) return;
            hardClose(pfd);
            pfd = -1;
            uint8_t b[64] = {};
            for (unsigned i = 0; i < 3; ++i) { int rc = u.l->send(b, 64); vh::count(rc > 0 ? "late_send_ok" : "late_send_refused"); if (rc > 0 && i) VCHECK(i < 2, "send-to-nowhere", "sending on a reset connection is reported as done again and again"); }
        });
        bool ok = await([&]{ return u.over.load(); });
        VCHECK(ok, "reset-unreported", "the peer reset the connection, the owner of the link is never told");
        break;
    }
    case 4:   // the owner reads before the event comes
    {
        bool reset = g.chance(60);
        o.run([&]
        {
            if (!u.open) return;
            if (g.chance(50)) { uint8_t b[5] = {9, 8, 7, 6, 5}; if (::send(pfd, b, 5, MSG_NOSIGNAL) == 5) peerSent.insert(peerSent.end(), b, b + 5); }
            int end = otherEnd(pfd);
            if (reset) { hardClose(pfd); pfd = -1; }
            else { pump(false); ::shutdown(pfd, SHUT_WR); }
            if (end >= 0)
            {
                // the end has arrived at this side: no read may say that there is nothing yet
                struct pollfd p{end, POLLRDHUP, 0};
                if (poll(&p, 1, 20000) <= 0) end = -1;
            }
            bool told = false;
            for (unsigned i = 0; i < 2000 && !told; ++i)
            {
                uint8_t buf[512];
                auto r = u.l->receive(buf, 1 + g.below(512));
                if (r.status == rx::LinkResult::ok) { VCHECK(r.len > 0, "receive-length", "receive reports %d bytes", r.len); if (r.len > 0) { u.in.insert(u.in.end(), buf, buf + r.len); u.inN += r.len; } }
                else if (r.status == rx::LinkResult::na) { VCHECK(end < 0, "end-denied", "the peer %s the connection, reading it says that there is nothing yet", reset ? "reset" : "closed"); sleepUs(2000); }
                else { told = true; if (r.status == rx::LinkResult::closed) u.ends++; else u.errors++; }
            }
            VCHECK(told, "end-unread", "the peer %s the connection, reading it reports nothing", reset ? "reset" : "closed");
            if (!reset) VCHECK(!told || u.in == peerSent || u.errors, "stream-in", "%zu bytes arrive, the peer wrote %zu before closing", u.in.size(), peerSent.size());
            u.open = false; u.wantEvents = false; u.over = true;
            u.l->close();
            vh::count("ends_read_directly");
        });
        break;
    }
    case 3:   // closed from this side: everything accepted for sending reaches the peer
    {
        o.run([&]
        {
            u.wantEvents = false;
            if (g.chance(50)) u.l->close(); else { u.l.reset(); u.life = 0; }
            u.over = true;
        });
        struct timeval tv{20, 0};
        setsockopt(pfd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
        pump(true);
        break;
    }
    }
    o.run([&]
    {
        size_t n = std::min(u.in.size(), peerSent.size());
        VCHECK(u.in.size() <= peerSent.size() && std::equal(u.in.begin(), u.in.begin() + n, peerSent.begin()), "stream-in", "bytes received differ from the bytes the peer wrote");
        if (pfd >= 0)
        {
            pump(false);
            Bytes all = u.out;
            if (u.sendFailed) all.insert(all.end(), u.lastFailed.begin(), u.lastFailed.end());
            VCHECK(peerGot.size() <= all.size() && std::equal(peerGot.begin(), peerGot.end(), all.begin()), "stream-out", "the peer received bytes that were not sent in this order");
            if (ending == 3) VCHECK(peerGot.size() >= u.out.size(), "stream-out", "peer received %zu bytes, %zu were reported as sent", peerGot.size(), u.out.size());
        }
        vh::count("bytes_in", u.in.size());
        vh::count("bytes_out", u.out.size());
        vh::distinct("streams", vh::hashMix(vh::hashMix(u.in.size(), u.out.size()), ending * 2 + accepted));
        VCHECK(u.errors + u.ends <= 1, "told-twice", "the end of a connection was reported %u times", u.errors + u.ends);
        u.life = 0;
        u.l.reset();
        acc.reset();
    });
    if (pfd >= 0) ::close(pfd);
    if (vh::ctx.shard == 0) vh::sample(vh::fmt("stream %s: in %zu out %zu bytes, ending %u", accepted ? "accepted" : "connected", u.in.size(), u.out.size(), ending));
}

// many links with events in one batch; handlers drop other links and reuse them
void r04Reuse(Rng& g, uint64_t)
{
    Rng hg(g.next());
    One o;
    Peer peer;
    if (!peer.open(0x7f000001)) return;
    unsigned n = g.chance(50) ? 32 : 4 + g.below(20);
    struct U : LinkUser { int peerFd = -1; bool fresh = false; bool seen = false; };
    std::vector<std::unique_ptr<U>> us;
    std::vector<int> fds;
    std::vector<std::unique_ptr<U>> fresh;
    std::atomic<unsigned> ups{0};
    bool storm = false;
    std::atomic<uint64_t> evs{0};
    uint64_t hist = 3;
    std::function<void(U&)> drop;
    auto make = [&](U& u)
    {
        uint64_t life = ++lifeGen;
        u.life = life;
        u.g = &hg;
        struct Big { U* u; uint64_t life; uint64_t pad[8]; } big{&u, life, {1, 2, 3, 4, 5, 6, 7, 8}};
        u.l = o.r->createLink([&, big](rx::LinkEvent e)
        {
            auto* fn = &drop;
            auto* hh = &hist;
            auto* rr = &hg;
            auto* st = &storm;
            auto* up = &ups;
            auto* ev = &evs;
            U& u = *big.u;
            (*ev)++;
            *hh = vh::hashMix(*hh, (uint64_t)e * 64 + big.life % 64);
            if (u.life != big.life || u.fresh || !u.wantEvents)
            { VCHECK(false, "stale-event", "event %d is delivered to a link that was dropped or has not been connected yet", (int)e); return; }
            if (e == rx::LinkEvent::connected) { (*up)++; u.open = true; }
            if (e == rx::LinkEvent::error) { u.open = false; u.wantEvents = false; }
            if (e == rx::LinkEvent::data)
            {
                uint8_t b[256];
                auto r = u.l->receive(b, sizeof b);
                if (r.status == rx::LinkResult::ok) u.in.insert(u.in.end(), b, b + r.len);
                if (r.status == rx::LinkResult::closed || r.status == rx::LinkResult::error) { u.l->close(); u.wantEvents = false; }
                for (auto x : u.in) VCHECK(x == (uint8_t)u.seen, "wrong-stream", "a link received bytes of another connection");
            }
            if (*st) (*fn)(u);
            if (rr->chance(10)) throw std::runtime_error("handler");
            if (big.pad[7] != 8) vh::viol("handler-destroyed", "a link handler was destroyed while it ran");
        });
        for (auto& x : us) if (x.get() != &u && x->l && x->l.get() == u.l.get()) VCHECK(false, "shared-link", "two owners got the same link");
        for (auto& x : fresh) if (x.get() != &u && x->l && x->l.get() == u.l.get()) VCHECK(false, "shared-link", "two owners got the same link");
    };
    drop = [&](U& self)
    {
        // drop some links (maybe this one) and take new ones at once
        unsigned k = hg.below(4);
        for (unsigned i = 0; i < k; ++i)
        {
            U& v = hg.chance(25) ? self : *us[hg.below(us.size())];
            if (!v.l) continue;
            if (hg.chance(20)) { v.l->close(); v.wantEvents = false; vh::count("closed_in_handler"); continue; }
            v.life = 0; v.wantEvents = false;
            v.l.reset();
            vh::count("dropped_in_handler");
            fresh.push_back(std::make_unique<U>());
            fresh.back()->fresh = true;
            try { make(*fresh.back()); vh::count("reused_in_handler"); } catch (std::exception&) { fresh.pop_back(); }
        }
    };
    o.run([&]
    {
        for (unsigned i = 0; i < n; ++i)
        {
            us.push_back(std::make_unique<U>());
            auto& u = *us.back();
            u.seen = 0;
            make(u);
            u.wantEvents = true;
            try { u.l->connect(mkAddr(0x7f000001, peer.port)); } catch (std::exception&) { u.wantEvents = false; }
        }
    });
    for (unsigned i = 0; i < n; ++i) { int fd = peer.acc(); if (fd >= 0) fds.push_back(fd); }
    await([&]{ return ups >= n; }, [&]{ return (uint64_t)ups.load(); });
    VCHECK(ups == n, "connect-unreported", "%u of %u connections reported", ups.load(), n);
    for (unsigned round = 0; round < 2 + g.below(3); ++round)
    {
        o.run([&]
        {
            storm = true;
            // all peers act while the loop is busy: their events come in one batch
            for (auto& fd : fds)
            {
                if (fd < 0) continue;
                unsigned a = g.below(100);
                if (a < 60) { uint8_t b[4] = {0, 0, 0, 0}; if (::send(fd, b, 1 + g.below(4), MSG_NOSIGNAL) > 0) {} }
                else if (a < 75) { hardClose(fd); fd = -1; }
                else if (a < 85) { ::close(fd); fd = -1; }
            }
            vh::count("event_bursts");
        });
        sleepUs(300 + g.below(1500));
        uint64_t e = evs;
        await([&]{ bool same = evs == e; e = evs; sleepUs(300); return same; });
    }
    o.run([&]{ storm = false; });
    o.run([&]
    {
        for (auto& u : us) { u->life = 0; u->l.reset(); }
        for (auto& u : fresh) { u->life = 0; u->l.reset(); }
    });
    for (auto fd : fds) if (fd >= 0) ::close(fd);
    vh::distinct("event_orders", hist);
    vh::count("link_events", evs);
}

// a timer that was used very often is a timer
void r03Endurance(Rng& g, uint64_t)
{
    One o;
    rx::TimerPtr t, u;
    std::atomic<unsigned> fired{0}, other{0};
    unsigned const rounds = 67000, chain = 3000;
    o.run([&]
    {
        t = o.r->createTimer([&] { if (++fired < chain) t->start(g.below(30)); });
        u = o.r->createTimer([&] { other++; });
        u->start(3600 * SEC);
        for (unsigned i = 0; i < rounds; ++i) { t->start(3600 * SEC); if (i % 3) t->stop(); }
        t->stop();
    });
    sleepUs(1000);
    VCHECK(fired == 0 && other == 0, "fired-stopped", "a stopped timer fired after %u starts", rounds);
    o.run([&]{ t->start(10); });
    bool done = await([&]{ return fired >= chain; }, [&]{ return fired.load(); });
    VCHECK(done, "not-fired", "the timer fired %u times, %u were due", fired.load(), chain);
    sleepUs(2000);
    VCHECK(fired == chain && other == 0, "fired-twice", "the timer fired %u times, %u were due (the other one %u times)", fired.load(), chain, other.load());
    o.run([&]{ t.reset(); u.reset(); });
    vh::count("endurance_runs");
    vh::count("timer_fires", fired);
}

// ------------------------------------------------------------------ R05
struct Stock { unsigned t = 0, l = 0, a = 0; };
Stock stock(One& o)
{
    Stock s;
    std::vector<rx::TimerPtr> ts;
    std::vector<rx::LinkPtr> ls;
    std::vector<rx::AcceptorPtr> as;
    std::set<void*> seen;
    auto uniq = [&](void* p) { VCHECK(seen.insert(p).second, "shared-object", "two owners got the same object"); };
    try { while (ts.size() < 2000) { ts.push_back(o.r->createTimer([] {})); uniq(ts.back().get()); } } catch (std::exception&) {}
    seen.clear();
    try { while (ls.size() < 2000) { ls.push_back(o.r->createLink([](rx::LinkEvent) {})); uniq(ls.back().get()); } } catch (std::exception&) {}
    seen.clear();
    try { while (as.size() < 2000) { as.push_back(o.r->createAcceptor([] {})); uniq(as.back().get()); } } catch (std::exception&) {}
    s.t = ts.size(); s.l = ls.size(); s.a = as.size();
    return s;
}

void r05Churn(Rng& g, uint64_t)
{
    Rng hg(g.next());
    One o;
    Stock base;
    unsigned fds0 = 0;
    o.run([&]{ base = stock(o); });
    fds0 = openFds();
    Peer peer;
    uint32_t ip = loop(g);
    if (!peer.open(ip)) return;
    unsigned pfd0 = 1;
    uint32_t lip = loop(g);
    std::vector<uint16_t> ports{freePort(lip), freePort(lip), freePort(lip)};
    std::vector<int> dialled;
    unsigned pct = g.pick({0u, 10u, 35u});
    std::vector<rx::TimerPtr> ts;
    struct L { rx::LinkPtr p; };
    std::vector<std::unique_ptr<L>> ls;
    struct A { rx::AcceptorPtr p; bool on = false; };
    std::vector<std::unique_ptr<A>> as;
    std::atomic<uint64_t> handlerRuns{0};
    auto uniq = [&](void* p)
    {
        unsigned n = 0;
        for (auto& t : ts) n += t.get() == p;
        for (auto& l : ls) n += l->p.get() == p;
        for (auto& a : as) n += a->p.get() == p;
        VCHECK(n <= 1, "shared-object", "two owners got the same object");
    };
    uint64_t shape = 5;
    unsigned rounds = 2 + g.below(4);
    for (unsigned r = 0; r < rounds; ++r)
    {
        o.run([&]
        {
            injRng = &hg;
            watchClose = true;
            unsigned acts = 10 + g.below(80);
            for (unsigned k = 0; k < acts; ++k)
            {
                injPct = pct;
                unsigned a = g.below(100);
                bool ok = true;
                unsigned const fdsBefore = openFds();
                unsigned retried = 0;
                unsigned const hits = injHits;
                // fails or not, an object that was idle before can be used afterwards
                auto listen = [&](A& x)
                {
                    bool idle = !x.on;
                    try { x.p->listen(mkAddr(lip, g.pick(ports))); x.on = true; }
                    catch (std::exception&)
                    {
                        injPct = 0;
                        VCHECK(openFds() <= fdsBefore, "failed-listen-keeps", "a failing listen left %d descriptors open", (int)openFds() - (int)fdsBefore);
                        if (!idle || g.chance(40)) throw;
                        try { x.p->listen(mkAddr(lip, 0)); x.on = true; vh::count("listens_retried"); }
                        catch (std::exception& e) { VCHECK(false, "listen-retry", "after a failed listen the listener cannot be used: %s", e.what()); throw; }
                        if (g.chance(70)) { x.p->close(); x.on = false; } else retried = 1;
                        throw;
                    }
                };
                auto connectNew = [&](L& l)
                {
                    try { l.p->connect(mkAddr(ip, peer.port)); }
                    catch (std::exception&)
                    {
                        injPct = 0;
                        VCHECK(openFds() <= fdsBefore, "failed-connect-keeps", "a failing connect left %d descriptors open", (int)openFds() - (int)fdsBefore);
                        if (g.chance(40)) throw;
                        try { l.p->connect(mkAddr(ip, peer.port)); vh::count("connects_retried"); }
                        catch (std::exception& e) { VCHECK(false, "connect-retry", "after a failed connect the link cannot be used: %s", e.what()); throw; }
                        if (g.chance(70)) l.p->close(); else retried = 1;
                        throw;
                    }
                };
                try
                {
                    if (a < 20) { auto t = o.r->createTimer([&] { handlerRuns++; }); ts.push_back(std::move(t)); injPct = 0; uniq(ts.back().get()); if (g.chance(50)) ts.back()->start(g.below(3000)); }
                    else if (a < 40) { auto l = std::make_unique<L>(); auto* raw = l.get(); l->p = o.r->createLink([&, raw](rx::LinkEvent e) { handlerRuns++; if (e == rx::LinkEvent::error && hg.chance(50)) raw->p->close(); }); ls.push_back(std::move(l)); injPct = 0; uniq(ls.back()->p.get()); injPct = pct; if (g.chance(30)) connectNew(*ls.back()); }
                    else if (a < 55 && !ls.empty()) { ls[g.below(ls.size())]->p->connect(mkAddr(ip, g.chance(80) ? peer.port : 1)); }
                    else if (a < 65)
                    {
                        auto x = std::make_unique<A>();
                        auto* raw = x.get();
                        x->p = o.r->createAcceptor([&, raw]
                        {
                            handlerRuns++;
                            auto l = std::make_unique<L>();
                            bool reuse = hg.chance(15) && !ls.empty();
                            unsigned keep = injPct;
                            injPct = pct;
                            unsigned const hits = injHits;
                            try
                            {
                                if (reuse) { raw->p->accept(*ls[hg.below(ls.size())]->p); vh::count("accepted"); }
                                else
                                {
                                    l->p = o.r->createLink([&](rx::LinkEvent) { handlerRuns++; });
                                    raw->p->accept(*l->p);
                                    vh::count("accepted");
                                    ls.push_back(std::move(l));
                                }
                            }
                            catch (std::exception&) { vh::count("accept_failed"); injPct = keep; throw; }
                            injPct = keep;
                            VCHECK(injHits == hits, "failure-hidden", "an accept succeeds although a system call it made failed");
                        });
                        as.push_back(std::move(x));
                        injPct = 0;
                        uniq(as.back()->p.get());
                        injPct = pct;
                        if (g.chance(80)) listen(*as.back());
                    }
                    else if (a < 72 && !as.empty()) { auto& x = as[g.below(as.size())]; if (g.chance(50)) listen(*x); else { x->p->close(); x->on = false; } }
                    else if (a < 80 && !ts.empty()) { injPct = 0; unsigned i = g.below(ts.size()); ts.erase(ts.begin() + i); }
                    else if (a < 88 && !ls.empty()) { injPct = 0; unsigned i = g.below(ls.size()); if (g.chance(30)) ls[i]->p->close(); else ls.erase(ls.begin() + i); }
                    else if (a < 92 && !as.empty()) { injPct = 0; unsigned i = g.below(as.size()); as.erase(as.begin() + i); }
                    else if (!ls.empty()) { uint8_t b[16] = {}; auto& l = *ls[g.below(ls.size())]; if (g.chance(50)) l.p->send(b, 16); else l.p->receive(b, 16); }
                }
                catch (std::exception&) { ok = false; vh::count(injHits == hits ? "operations_refused" : "operations_failed_injected"); vh::count("operations_failed"); injPct = 0; VCHECK(openFds() <= fdsBefore + retried, "failure-keeps", "a failing operation (%u) left %d descriptors open", a, (int)openFds() - (int)fdsBefore); }
                VCHECK(!ok || injHits == hits, "failure-hidden", "an operation (%u) succeeds although a system call it made failed", a);
                shape = vh::hashMix(shape, a * 2 + ok);
                vh::count("operations");
            }
            injPct = 0;
        });
        for (unsigned k = 0; k < g.below(8); ++k) { int fd = dial(lip, g.pick(ports), 20); if (fd >= 0) { dialled.push_back(fd); vh::count("dialled"); } }
        sleepUs(g.below(2500));
        for (unsigned k = 0; k < 40; ++k)
        {
            struct pollfd p{peer.ls, POLLIN, 0};
            if (poll(&p, 1, 0) <= 0) break;
            int fd = ::accept(peer.ls, nullptr, nullptr);
            if (fd < 0) break;
            if (g.chance(30)) hardClose(fd); else if (g.chance(30)) ::close(fd); else dialled.push_back(fd);
        }
    }
    bool restart = g.chance(50);
    o.run([&]
    {
        injPct = 0;
        if (g.chance(50)) { ts.clear(); as.clear(); ls.clear(); } else { ls.clear(); ts.clear(); as.clear(); }
    });
    for (auto fd : dialled) ::close(fd);
    ::close(peer.ls);
    peer.ls = -1;
    Stock end;
    unsigned fds1 = 0;
    o.run([&]{ end = stock(o); });
    fds1 = openFds();
    VCHECK(end.t == base.t, "timers-lost", "%u timers could be created at first, %u after everything was dropped", base.t, end.t);
    VCHECK(end.l == base.l, "links-lost", "%u links could be created at first, %u after everything was dropped", base.l, end.l);
    VCHECK(end.a == base.a, "listeners-lost", "%u listeners could be created at first, %u after everything was dropped", base.a, end.a);
    VCHECK(fds1 == fds0, "descriptors-leaked", "%u descriptors open at first, %u after everything was dropped", fds0, fds1);
    (void)pfd0;
    // the objects are not only obtainable but usable: every listener, link and timer works again
    if (restart)
    {
        uint16_t port = freePort(lip);
        std::vector<rx::TimerPtr> t2;
        std::vector<std::unique_ptr<L>> l2;
        rx::AcceptorPtr a2;
        std::atomic<unsigned> fired{0}, accepted{0}, up{0};
        bool ok = true;
        std::string why;
        o.run([&]
        {
            try
            {
                for (unsigned i = 0; i < base.t; ++i) { t2.push_back(o.r->createTimer([&] { fired++; })); t2.back()->start(g.below(500)); }
                a2 = o.r->createAcceptor([&] { auto l = std::make_unique<L>(); l->p = o.r->createLink([](rx::LinkEvent) {}); a2->accept(*l->p); l2.push_back(std::move(l)); accepted++; });
                a2->listen(mkAddr(lip, port));
            }
            catch (std::exception& e) { ok = false; why = e.what(); }
        });
        // a few at a time: the listen queue is short
        for (unsigned i = 0; i < base.l / 2 && ok; ++i)
        {
            o.run([&]
            {
                try
                {
                    auto l = std::make_unique<L>();
                    l->p = o.r->createLink([&](rx::LinkEvent e) { if (e == rx::LinkEvent::connected) up++; });
                    l->p->connect(mkAddr(lip, port));
                    l2.push_back(std::move(l));
                }
                catch (std::exception& e) { ok = false; why = e.what(); }
            });
            if (i % 4 == 3 && ok && !await([&]{ return accepted > i; })) break;
        }
        VCHECK(ok, "not-usable", "recycled timers, links or listeners cannot be used: %s", why.c_str());
        if (ok)
        {
            unsigned half = base.l / 2;
            bool done = await([&]{ return fired >= base.t && accepted >= half && up >= half; }, [&]{ return (uint64_t)fired + accepted + up; });
            VCHECK(done, "not-usable", "recycled objects: %u of %u timers fired, %u accepted and %u connected of %u", fired.load(), base.t, accepted.load(), up.load(), half);
        }
        o.run([&]{ t2.clear(); l2.clear(); a2.reset(); });
        vh::count("recycled_used");
        // the same address again, although its connections were closed from this side
        bool again = true;
        o.run([&]
        {
            a2 = o.r->createAcceptor([] {});
            try { a2->listen(mkAddr(lip, port)); } catch (std::exception& e) { again = false; why = e.what(); }
            a2.reset();
        });
        VCHECK(again, "address-lost", "an address cannot be listened on again after its listener was dropped: %s", why.c_str());
        unsigned fds2 = openFds();
        VCHECK(fds2 == fds0, "descriptors-leaked", "%u descriptors open at first, %u after use", fds0, fds2);
    }
    vh::distinct("operation_histories", shape);
    vh::count("handler_runs", handlerRuns);
    if (vh::ctx.shard == 0) vh::sample(vh::fmt("churn: injected failures %u%%, stock %u/%u/%u, descriptors %u", pct, base.t, base.l, base.a, fds1));
}

// however many were created and dropped before
void r05Endurance(Rng& g, uint64_t)
{
    One o;
    Stock base, end;
    unsigned fds0 = 0;
    o.run([&]{ base = stock(o); });
    fds0 = openFds();
    uint32_t lip = loop(g);
    uint16_t port = freePort(lip);
    o.run([&]
    {
        try
        {
            rx::TimerPtr kt = o.r->createTimer([] {});
            rx::LinkPtr kl = o.r->createLink([](rx::LinkEvent) {});
            rx::AcceptorPtr ka = o.r->createAcceptor([] {});
            for (unsigned i = 0; i < 67000; ++i)
            {
                auto t = o.r->createTimer([] {});
                if (i % 8 == 0) t->start(i);
                auto l = o.r->createLink([](rx::LinkEvent) {});
                auto a = o.r->createAcceptor([] {});
                if (i % 512 == 0) { a->listen(mkAddr(lip, port)); l->connect(mkAddr(lip, port)); }
                if (t.get() == kt.get() || l.get() == kl.get() || a.get() == ka.get()) { VCHECK(false, "shared-object", "two owners got the same object"); return; }
            }
        }
        catch (std::exception& e) { VCHECK(false, "not-usable", "creating and dropping fails after many times: %s", e.what()); }
    });
    o.run([&]{ end = stock(o); });
    unsigned fds1 = openFds();
    VCHECK(end.t == base.t && end.l == base.l && end.a == base.a, "objects-lost", "%u timers %u links %u listeners at first, %u %u %u after very many were created and dropped", base.t, base.l, base.a, end.t, end.l, end.a);
    VCHECK(fds1 == fds0, "descriptors-leaked", "%u descriptors open at first, %u after everything was dropped", fds0, fds1);
    vh::count("endurance_runs");
}

// creating and destroying whole reactors, with everything in use, gives all descriptors back
void r05Teardown(Rng& g, uint64_t)
{
    unsigned fds0 = openFds();
    {
        One o;
        Peer peer;
        peer.open(0x7f000001);
        std::vector<rx::TimerPtr> ts;
        std::vector<rx::LinkPtr> ls;
        rx::AcceptorPtr a;
        o.run([&]
        {
            for (unsigned i = 0; i < g.below(32); ++i) { ts.push_back(o.r->createTimer([] {})); if (g.chance(70)) ts.back()->start(g.below(5000)); }
            for (unsigned i = 0; i < g.below(20); ++i) { ls.push_back(o.r->createLink([](rx::LinkEvent) {})); try { if (peer.ls >= 0) ls.back()->connect(mkAddr(0x7f000001, peer.port)); } catch (std::exception&) {} }
            a = o.r->createAcceptor([] {});
        });
        o.mgr->stop();
        vh::count("teardowns");
    }
    unsigned fds1 = openFds();
    VCHECK(fds1 == fds0, "descriptors-leaked", "%u descriptors before, %u after a reactor was used and destroyed", fds0, fds1);
}
} // namespace

int main(int argc, char** argv)
{
    using vh::suite;
    return vh::mainImpl(argc, argv, {
        {"R01", []{ suite("paced", 640, 8000, r01Paced); suite("overload", 320, 4000, r01Overload); suite("flood", 480, 6000, r01Flood); suite("endurance", 4, 16, r01Endurance); }},
        {"R02", []{ suite("storm", 900, 16000, r02Storm); suite("paced", 60, 800, r01Paced); suite("churn", 60, 800, r05Churn); suite("timers", 80, 1200, r03Timers); suite("reuse", 60, 800, r04Reuse); }},
        {"R03", []{ suite("timers", 1600, 24000, r03Timers); suite("long", 160, 1600, r03Long); suite("endurance", 4, 16, r03Endurance); }},
        {"R04", []{ suite("address", 80, 800, r04Address); suite("stream", 3200, 48000, r04Stream); suite("reuse", 800, 12000, r04Reuse); }},
        {"R05", []{ suite("churn", 1600, 24000, r05Churn); suite("teardown", 240, 3000, r05Teardown); suite("endurance", 4, 16, r05Endurance); }},
    });
}

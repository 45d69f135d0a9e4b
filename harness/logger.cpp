// Log output. Property R06.
#include "vh.hpp"
#include "Logger.hpp"
#include <atomic>
#include <deque>
#include <thread>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

using vh::Rng;
using app::LogLevel;
using app::LogTask;

namespace
{
char const* const levelName[] = {"DBG", "INF", "WRN", "ERR"};
char const* const taskName[] = {"GEN", "CTRL", "MODBUS", "UATL", "UASC", "UASRV", "UA"};
int const firstLine = __LINE__ + 11;

struct Args { unsigned t, k; char const* text; int n; std::atomic<uint64_t>* evaluated; };
char const* use(Args& a) { ++*a.evaluated; return a.text; }

// every task and level through the macro, the way the components do it
void logOne(LogTask task, LogLevel level, Args a)
{
#define ONE(T) case LogTask::T: switch (level) { case LogLevel::LD: LM(T, LD, "<%u:%u> %s|%d|%%", a.t, a.k, use(a), a.n) break; case LogLevel::LI: LM(T, LI, "<%u:%u> %s|%d|%%", a.t, a.k, use(a), a.n) break; case LogLevel::LW: LM(T, LW, "<%u:%u> %s|%d|%%", a.t, a.k, use(a), a.n) break; case LogLevel::LE: LM(T, LE, "<%u:%u> %s|%d|%%", a.t, a.k, use(a), a.n) break; default: break; } break;
    switch (task)
    {
    ONE(GEN)
    ONE(CTRL)
    ONE(MODBUS)
    ONE(UATL)
    ONE(UASC)
    ONE(UASRV)
    ONE(UA)
    default: break;
    }
#undef ONE
}



struct Thread
{
    unsigned t;
    Rng rng{1};
    std::deque<std::string> want;
    std::atomic<uint64_t> evaluated{0};
    uint64_t enabled = 0, disabled = 0;
};

std::string text(Rng& g)
{
    std::string r;
    unsigned n;
    switch (g.below(6))
    {
    case 0: n = 0; break;
    case 1: n = 900 + g.below(200); break;       // around the limit
    case 2: n = 1000 + g.below(5000); break;     // beyond it
    default: n = g.below(120); break;
    }
    for (unsigned i = 0; i < n; ++i) { char c = g.chance(4) ? '%' : g.chance(3) ? 'n' : (char)g.range(0x20, 0x7e); r += c; }
    return r;
}

struct Capture
{
    int fd, saved;
    Capture()
    {
        fflush(stdout);
        fd = memfd_create("log", 0);
        saved = dup(1);
        dup2(fd, 1);
    }
    std::string end()
    {
        fflush(stdout);
        dup2(saved, 1);
        ::close(saved);
        struct stat st;
        std::string r;
        if (!fstat(fd, &st)) { r.resize(st.st_size); if (pread(fd, r.data(), r.size(), 0) != (ssize_t)r.size()) r.clear(); }
        ::close(fd);
        return r;
    }
};

int64_t nowMs() { struct timeval tv; gettimeofday(&tv, nullptr); return (int64_t)tv.tv_sec * 1000 + tv.tv_usec / 1000; }

void output(Rng& g, uint64_t)
{
    static char const* const zones[] = {"UTC", "XYZ-5:30", "ABC+8", "CET-1CEST,M3.5.0,M10.5.0/3", "NZST-12NZDT,M9.5.0,M4.1.0/3"};
    setenv("TZ", zones[g.below(5)], 1);
    tzset();
    auto& log = app::Logger::getInst();
    std::vector<LogLevel> levels(7), before(7);
    for (int i = 0; i < 7; ++i) before[i] = log.getTaskLogLevel((LogTask)i);
    for (int i = 0; i < 7; ++i) { levels[i] = (LogLevel)g.below(5); log.setTaskLogLevel((LogTask)i, levels[i]); }
    for (int i = 0; i < 7; ++i) VCHECK(log.getTaskLogLevel((LogTask)i) == levels[i], "level-kept", "the level of task %s reads back as %d, %d was set", taskName[i], (int)log.getTaskLogLevel((LogTask)i), (int)levels[i]);
    unsigned n = 1 + g.below(6), per = 5 + g.below(60);
    std::vector<std::unique_ptr<Thread>> ts;
    for (unsigned t = 0; t < n; ++t) { ts.push_back(std::make_unique<Thread>()); ts[t]->t = t; ts[t]->rng = Rng(g.next()); }
    Capture cap;
    int64_t t0 = nowMs();
    std::vector<std::thread> run;
    std::atomic<unsigned> ready{0};
    for (unsigned t = 0; t < n; ++t)
        run.emplace_back([&, t]
        {
            Thread& me = *ts[t];
            ready++;
            while (ready < n) {}
            for (unsigned k = 0; k < per; ++k)
            {
                std::string s = text(me.rng);
                int task = me.rng.below(7), level = me.rng.below(4);
                if (me.rng.chance(80))
                {
                    int num = (int)me.rng.next();
                    logOne((LogTask)task, (LogLevel)level, Args{t, k, s.c_str(), num, &me.evaluated});
                    if (level < (int)levels[task]) { me.disabled++; continue; }
                    me.enabled++;
                    std::string m = vh::fmt("<%u:%u> ", t, k) + s + "|" + std::to_string(num) + "|%";
                    if (m.size() > 1023) m.resize(1023);
                    me.want.push_back(std::string(levelName[level]) + " [" + taskName[task] + "] logger.cpp " + std::to_string(firstLine + task) + ": " + m);
                }
                else
                {
                    // direct output: whoever calls it has decided to; all source file spellings
                    static char const* const files[][2] = {{"x.cpp", "x.cpp"}, {"/a/b/c.cpp", "c.cpp"}, {"a/b.hpp", "b.hpp"}, {"/d", "d"}, {"e/", ""}, {"", ""}};
                    auto* f = files[me.rng.below(6)];
                    int line = (int)me.rng.below(100000);
                    std::string m = vh::fmt("<%u:%u> ", t, k) + s;
                    log.dispatch(m.c_str(), (LogLevel)level, (LogTask)task, f[0], line);
                    me.want.push_back(std::string(levelName[level]) + " [" + taskName[task] + "] " + f[1] + " " + std::to_string(line) + ": " + m);
                }
                if (me.rng.chance(5)) std::this_thread::yield();
            }
        });
    for (auto& t : run) t.join();
    int64_t t1 = nowMs();
    std::string all = cap.end();
    for (int i = 0; i < 7; ++i) log.setTaskLogLevel((LogTask)i, before[i]);

    uint64_t order = 7;
    size_t pos = 0, count = 0;
    int64_t last = 0;
    while (pos < all.size())
    {
        size_t e = all.find('\n', pos);
        if (e == std::string::npos) { VCHECK(false, "line-open", "the output ends without an end of line"); break; }
        std::string l = all.substr(pos, e - pos);
        pos = e + 1;
        ++count;
        struct tm tm{};
        int ms = -1, used = 0;
        unsigned id = 0, k = 0;
        bool ok = sscanf(l.c_str(), "%2d-%2d-%4d %2d:%2d:%2d.%3d %n", &tm.tm_mday, &tm.tm_mon, &tm.tm_year, &tm.tm_hour, &tm.tm_min, &tm.tm_sec, &ms, &used) == 7 && used == 24;
        size_t at = l.find(": <");
        if (!ok || at == std::string::npos || sscanf(l.c_str() + at, ": <%u:%u>", &id, &k) != 2 || id >= n)
        {
            VCHECK(false, "line-broken", "a line that nobody logged: %.200s", l.c_str());
            throw vh::StopCase();
        }
        auto& me = *ts[id];
        if (me.want.empty()) { VCHECK(false, "line-extra", "thread %u: a line more than was logged: %.200s", id, l.c_str()); throw vh::StopCase(); }
        VCHECK(l.substr(used) == me.want.front(), "line-content", "thread %u: line \"%.160s\" where \"%.160s\" is due", id, l.c_str() + used, me.want.front().c_str());
        if (l.substr(used) != me.want.front()) throw vh::StopCase();
        me.want.pop_front();
        tm.tm_mon -= 1; tm.tm_year -= 1900; tm.tm_isdst = -1;
        // in the hour that a change of daylight saving time repeats both readings are right
        int64_t a = (int64_t)mktime(&tm) * 1000 + ms;
        bool timely = (a >= t0 && a <= t1) || (a - 3600000 >= t0 && a - 3600000 <= t1) || (a + 3600000 >= t0 && a + 3600000 <= t1);
        if (tm.tm_isdst == 0 && !strchr(getenv("TZ"), ',')) timely = a >= t0 && a <= t1;
        VCHECK(timely, "line-time", "line \"%.40s\" was logged between %lld and %lld (%s)", l.c_str(), (long long)t0, (long long)t1, getenv("TZ"));
        VCHECK(a >= last || strchr(getenv("TZ"), ','), "time-order", "the times of the lines go back");
        last = a;
        order = vh::hashMix(order, id);
    }
    for (auto& t : ts)
    {
        VCHECK(t->want.empty(), "line-lost", "thread %u: %zu lines are missing, the first is \"%.160s\"", t->t, t->want.size(), t->want.empty() ? "" : t->want.front().c_str());
        VCHECK(t->evaluated == t->enabled, "evaluated", "thread %u: arguments were evaluated %lu times for %lu enabled messages", t->t, (unsigned long)t->evaluated, (unsigned long)t->enabled);
        vh::count("messages_enabled", t->enabled);
        vh::count("messages_disabled", t->disabled);
    }
    vh::count("lines", count);
    if (n > 1) vh::count("concurrent_runs");
    vh::distinct("line_orders", order);
    if (vh::ctx.shard == 0) vh::sample(vh::fmt("%u threads, %zu lines in zone %s", n, count, getenv("TZ")));
}
} // namespace

int main(int argc, char** argv)
{
    return vh::mainImpl(argc, argv, {{"R06", []{ vh::suite("output", 2400, 40000, output); }}});
}

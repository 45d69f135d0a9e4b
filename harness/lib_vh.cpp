#include "vh.hpp"
#include "Logger.hpp"
#include <cstdarg>
#include <algorithm>
#include <deque>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>

namespace vh
{

Ctx ctx;

namespace
{
std::mutex mtx;
std::map<std::string, uint64_t> counters;
std::map<std::string, std::set<uint64_t>> distincts;
std::vector<std::string> samples;
struct V { std::string suite; uint64_t cas; std::string key, detail, trace; };
std::vector<V> viols;
std::string curSuite;
uint64_t curCase;
std::deque<std::string> tr;
int curFd = -1;
std::set<std::string> knownKeys;
double firstFresh = 0;

double nowS()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec / 1e9;
}

std::string jstr(std::string const& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

void noteCurrent()
{
    if (curFd < 0) return;
    char b[256];
    int n = snprintf(b, sizeof b, "%-60s %12llu\n", curSuite.c_str(), (unsigned long long)curCase);
    if (::pwrite(curFd, b, n, 0) < 0) {}
}

void writeOut()
{
    if (ctx.outPath.empty()) return;
    std::string o = "{\"counters\":{";
    bool first = true;
    for (auto& c : counters) { if (!first) o += ","; first = false; o += jstr(c.first) + ":" + std::to_string(c.second); }
    o += "},\"distinct\":{";
    first = true;
    for (auto& d : distincts)
    {
        if (!first) o += ","; first = false;
        o += jstr(d.first) + ":[";
        bool f2 = true;
        for (auto h : d.second) { if (!f2) o += ","; f2 = false; o += std::to_string(h & 0xffffffffffffull); }
        o += "]";
    }
    o += "},\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) { if (i) o += ","; o += jstr(samples[i]); }
    auto dump = [&](std::vector<V> const& l)
    {
        for (size_t i = 0; i < l.size(); ++i)
        {
            auto& v = l[i];
            if (i) o += ",";
            o += "{\"suite\":" + jstr(v.suite) + ",\"case\":" + std::to_string(v.cas) + ",\"key\":" + jstr(v.key)
                + ",\"detail\":" + jstr(v.detail) + ",\"trace\":" + jstr(v.trace) + "}";
        }
    };
    o += "],\"violations\":[";
    dump(viols);
    o += "]}\n";
    std::string tmp = ctx.outPath + ".tmp";
    FILE* f = fopen(tmp.c_str(), "w");
    if (!f) return;
    fwrite(o.data(), 1, o.size(), f);
    fclose(f);
    rename(tmp.c_str(), ctx.outPath.c_str());
}
} // namespace

std::string hex(Bytes const& b, size_t max)
{
    std::string r;
    char t[4];
    for (size_t i = 0; i < b.size() && i < max; ++i) { snprintf(t, sizeof t, "%02x", b[i]); r += t; }
    if (b.size() > max) r += "..(" + std::to_string(b.size()) + ")";
    return r;
}

std::string fmt(const char* f, ...)
{
    char b[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

void count(std::string const& n, uint64_t k) { std::lock_guard<std::mutex> g(mtx); counters[n] += k; }
void maxi(std::string const& n, uint64_t v) { std::lock_guard<std::mutex> g(mtx); auto& c = counters["max_" + n]; if (v > c) c = v; }
void distinct(std::string const& k, uint64_t h)
{
    std::lock_guard<std::mutex> g(mtx);
    auto& s = distincts[k];
    if (s.size() < 20000) s.insert(h);
}
void sample(std::string const& s) { std::lock_guard<std::mutex> g(mtx); if (samples.size() < 6) samples.push_back(s); }

void viol(std::string const& key, std::string const& detail)
{
    std::lock_guard<std::mutex> g(mtx);
    counters["violations"]++;
    unsigned same = 0;
    for (auto& v : viols) same += v.key == key;
    if (same >= 3 || viols.size() >= 90) return;
    std::string t;
    for (auto& s : tr) t += s + "\n";
    viols.push_back({curSuite, curCase, key, detail, t});
    if (!knownKeys.count(key) && firstFresh == 0) firstFresh = nowS();
    writeOut();
    fprintf(stderr, "VIOL %s [%s#%llu] %s\n", key.c_str(), curSuite.c_str(), (unsigned long long)curCase, detail.c_str());
}

bool failed() { std::lock_guard<std::mutex> g(mtx); return !viols.empty(); }
unsigned numViol() { std::lock_guard<std::mutex> g(mtx); return counters["violations"]; }

static double violatedFor()
{
    std::lock_guard<std::mutex> g(mtx);
    return firstFresh == 0 ? 0 : nowS() - firstFresh;
}

void clearTrace() { std::lock_guard<std::mutex> g(mtx); std::deque<std::string>().swap(tr); }
void trace(std::string const& s)
{
    std::lock_guard<std::mutex> g(mtx);
    tr.push_back(s);
    if (tr.size() > 400) tr.pop_front();
}
std::string takeTrace()
{
    std::lock_guard<std::mutex> g(mtx);
    std::string t;
    for (auto& s : tr) t += s + "\n";
    return t;
}

void suite(std::string const& name, uint64_t q, uint64_t t, std::function<void(Rng&, uint64_t)> fn)
{
    if (!ctx.onlySuite.empty() && ctx.onlySuite != name) return;
    uint64_t n = ctx.thorough ? t : q;
    n = std::max<uint64_t>(n ? 1 : 0, n * ctx.scale / 100);
    uint64_t base = hashStr(name);
    for (uint64_t i = 0; i < n || ctx.onlyCase >= 0; ++i)
    {
        if (ctx.onlyCase >= 0) i = ctx.onlyCase;
        else if (i % ctx.nshards != ctx.shard) continue;
        {
            std::lock_guard<std::mutex> g(mtx);
            curSuite = name;
            curCase = i;
            tr.clear();
            noteCurrent();
        }
        Rng rng(hashMix(hashMix(base, ctx.seed), i));
        try
        {
            fn(rng, i);
        }
        catch (StopCase&)
        {
            count("cases_abandoned");
        }
        count("cases");
        count("cases." + name);
        if (numViol() >= 400 || ctx.onlyCase >= 0) break;
        // The verdict is known: what is broken may make each further case slow, so look for other kinds only for a while.
        if (violatedFor() > 20) break;
        if (i % 64 == ctx.shard) { std::lock_guard<std::mutex> g(mtx); writeOut(); }
    }
}

int mainImpl(int argc, char** argv, std::map<std::string, std::function<void()>> const& props)
{
    std::string curPath;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--prop") ctx.prop = v;
        else if (k == "--seed") ctx.seed = strtoull(v.c_str(), 0, 10);
        else if (k == "--tier") ctx.thorough = v == "thorough";
        else if (k == "--shard") { unsigned a, b; if (sscanf(v.c_str(), "%u/%u", &a, &b) == 2) { ctx.shard = a; ctx.nshards = b; } }
        else if (k == "--case") ctx.onlyCase = atol(v.c_str());
        else if (k == "--suite") ctx.onlySuite = v;
        else if (k == "--out") ctx.outPath = v;
        else if (k == "--cur") curPath = v;
        else if (k == "--known") knownKeys.insert(v);
        else if (k == "--scale") ctx.scale = atoi(v.c_str());
    }
    if (!curPath.empty()) curFd = ::open(curPath.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
    // SIGPIPE keeps its default action on purpose: the code under test must survive peers going away.
    signal(SIGPIPE, SIG_DFL);
    // Log arguments are evaluated only when a level is enabled: odd shards log everything (stdout is a sink),
    // even shards log nothing.
    for (int t = 0; t < (int)app::LogTask::NUM; ++t)
        app::Logger::getInst().setTaskLogLevel((app::LogTask)t, ctx.shard % 2 ? app::LogLevel::LD : app::LogLevel::NA);
    auto it = props.find(ctx.prop);
    if (it == props.end()) { fprintf(stderr, "unknown property\n"); return 2; }
    it->second();
    std::lock_guard<std::mutex> g(mtx);
    writeOut();
    return viols.empty() ? 0 : 3;
}

} // namespace vh

// C12: the testbed's reports in a simulated environment (topology tool, CPU list, clock, host name, output)
#include "../engine/sim.h"
#include <string>
#include <vector>
#include <set>
#include <map>
#include <sstream>
#include <stdexcept>
#include <iostream>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <math.h>
#include <libflatarray/testbed/cpu_benchmark.hpp>
#include <libflatarray/testbed/gpu_benchmark.hpp>
#include <libflatarray/testbed/evaluate.hpp>

typedef std::set<std::string> Texts;

// ---------------------------------------------------------------- the environment
struct Source
{
    bool opens;
    int open_error;
    std::string text;
    bool breaks;            // reading fails after the text
    int status;             // of the tool
    Source() : opens(true), open_error(ENOENT), breaks(false), status(0) {}
};
struct Env
{
    Source tool, list;
    size_t tool_pos, list_pos;
    std::set<FILE*> pipes, files;
    std::map<int, FILE*> fds;
    bool small_reads, interrupts;
    int64_t sec, usec;
    int jump;               // 0: steady
    std::vector<int64_t> readings;
    std::string host;
    bool host_fails;
    int gpu_error, gpu_prop_error;
    std::string gpu;
    uint64_t tools_started;
};
static Env *env;

extern "C" {
FILE *__real_popen(const char*, const char*);
int __real_pclose(FILE*);
int __real_fclose(FILE*);
FILE *__real_fopen(const char*, const char*);
FILE *__real_fopen64(const char*, const char*);
ssize_t __real_read(int, void*, size_t);
char *__real_fgets(char*, int, FILE*);
int __real_gettimeofday(struct timeval*, void*);
time_t __real_time(time_t*);
int __real_clock_gettime(clockid_t, struct timespec*);
int __real_gethostname(char*, size_t);
int __real_uname(struct utsname*);

static ssize_t tool_read(void*, char *buf, size_t n)
{
    sim::Outside o;
    Source& s = env->tool;
    size_t rest = s.text.size() - env->tool_pos;
    if (rest == 0) {
        if (s.breaks) { sim::count("fault.tool_read_error"); errno = EIO; return -1; }
        return 0;
    }
    size_t k = std::min(n, rest);
    if (env->small_reads) k = std::min(k, size_t(1 + sim::choose(40)));
    memcpy(buf, s.text.data() + env->tool_pos, k);
    env->tool_pos += k;
    return ssize_t(k);
}
FILE *__wrap_popen(const char *cmd, const char *mode)
{
    if (!env || !sim::in_lib()) return __real_popen(cmd, mode);
    sim::Outside o;
    if (!env->tool.opens) { sim::count("fault.tool_not_started"); errno = env->tool.open_error; return 0; }
    if (strncmp(cmd, "likwid-topology", 15)) sim::fail("unexpected-command", "command executed: %s", cmd);
    ++env->tools_started;
    env->tool_pos = 0;
    cookie_io_functions_t f = { tool_read, 0, 0, 0 };
    FILE *r = fopencookie(0, "r", f);
    env->pipes.insert(r);
    return r;
}
int __wrap_pclose(FILE *f)
{
    if (!env || !sim::in_lib()) return __real_pclose(f);
    sim::Outside o;
    if (!env->pipes.erase(f)) sim::fail("bad-close", "pclose() on something which is not an open pipe");
    __real_fclose(f);
    return env->tool.status;
}
static FILE *open_list(const char *path)
{
    sim::Outside o;
    if (strcmp(path, "/proc/cpuinfo")) { sim::event("open %s", path); errno = ENOENT; return 0; }
    if (!env->list.opens) { sim::count("fault.cpu_list_not_readable"); errno = env->list.open_error; return 0; }
    int fd = memfd_create("cpuinfo", 0);
    if (fd < 0) sim::fail("harness", "memfd");
    if (::write(fd, env->list.text.data(), env->list.text.size()) != ssize_t(env->list.text.size()) || lseek(fd, 0, SEEK_SET)) sim::fail("harness", "memfd");
    FILE *f = fdopen(fd, "r");
    env->list_pos = 0;
    env->files.insert(f);
    env->fds[fd] = f;
    return f;
}
FILE *__wrap_fopen(const char *p, const char *m) { return env && sim::in_lib() ? open_list(p) : __real_fopen(p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return env && sim::in_lib() ? open_list(p) : __real_fopen64(p, m); }
int __wrap_fclose(FILE *f)
{
    if (!env || !sim::in_lib()) return __real_fclose(f);
    sim::Outside o;
    if (env->pipes.count(f)) sim::fail("child-left", "the pipe to the topology tool was closed without waiting for the tool");
    if (!env->files.erase(f)) sim::fail("bad-close", "fclose() on something which is not an open file");
    env->fds.erase(fileno(f));
    return __real_fclose(f);
}
ssize_t __wrap_read(int fd, void *buf, size_t n)
{
    if (!env || !sim::in_lib() || !env->fds.count(fd)) return __real_read(fd, buf, n);
    sim::Outside o;
    Source& s = env->list;
    size_t rest = s.text.size() - env->list_pos;
    if (env->interrupts && sim::chance(1, 4)) { sim::count("fault.interrupted_read"); errno = EINTR; return -1; }
    if (rest == 0) {
        if (s.breaks) { sim::count("fault.cpu_list_read_error"); errno = EIO; return -1; }
        return 0;
    }
    size_t k = std::min(n, rest);
    if (env->small_reads) { k = std::min(k, size_t(1 + sim::choose(60))); sim::count("fault.short_read"); }
    memcpy(buf, s.text.data() + env->list_pos, k);
    env->list_pos += k;
    return ssize_t(k);
}
char *__wrap_fgets(char *buf, int n, FILE *f)
{
    if (env && sim::in_lib() && sim::in_arena(buf) && n > 0 && !sim::in_heap(buf, size_t(n))) sim::fail("heap-overflow", "fgets() was offered %d bytes of a smaller buffer", n);
    sim::Outside o;
    return __real_fgets(buf, n, f);
}
static void now(int64_t& s, int64_t& us)
{
    sim::Outside o;
    env->usec += int64_t(sim::choose(900000));
    if (env->usec >= 1000000) { env->usec -= 1000000; ++env->sec; }
    if (env->jump && sim::chance(1, 3)) {
        sim::count("fault.clock_jump");
        int64_t d = int64_t(sim::choose(2) ? sim::choose(4000) : sim::choose(400000000));
        env->sec += env->jump > 1 && sim::choose(2) ? -d : d;
        if (env->sec < 0) env->sec = 0;
        if (env->sec > 9223372000ll) env->sec = 9223372000ll;
    }
    s = env->sec; us = env->usec;
    env->readings.push_back(s);
}
int __wrap_gettimeofday(struct timeval *t, void *z)
{
    if (!env || !sim::in_lib()) return __real_gettimeofday(t, z);
    int64_t s, us; now(s, us);
    t->tv_sec = s; t->tv_usec = us;
    return 0;
}
time_t __wrap_time(time_t *t)
{
    if (!env || !sim::in_lib()) return __real_time(t);
    int64_t s, us; now(s, us);
    if (t) *t = s;
    return s;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
    if (!env || !sim::in_lib()) return __real_clock_gettime(c, t);
    int64_t s, us; now(s, us);
    t->tv_sec = s; t->tv_nsec = us * 1000;
    return 0;
}
int __wrap_gethostname(char *buf, size_t n)
{
    if (!env || !sim::in_lib()) return __real_gethostname(buf, n);
    sim::Outside o;
    if (sim::in_arena(buf) && n && !sim::in_heap(buf, n)) sim::fail("heap-overflow", "gethostname() was offered %zu bytes of a smaller buffer", n);
    if (env->host_fails) { sim::count("fault.gethostname_failed"); errno = EFAULT; return -1; }
    size_t len = env->host.size();
    memcpy(buf, env->host.data(), std::min(n, len));
    if (n > len) { buf[len] = 0; return 0; }
    errno = ENAMETOOLONG;
    return -1;
}
int __wrap_uname(struct utsname *u)
{
    if (!env || !sim::in_lib()) return __real_uname(u);
    sim::Outside o;
    if (env->host_fails) { sim::count("fault.gethostname_failed"); errno = EFAULT; return -1; }
    memset(u, 0, sizeof(*u));
    memcpy(u->nodename, env->host.data(), std::min(sizeof(u->nodename) - 1, env->host.size()));
    return 0;
}
}
cudaError_t cudaGetDevice(int *d) { if (env->gpu_error) { sim::Outside o; sim::count("fault.no_gpu"); return cudaError_t(env->gpu_error); } *d = 3; return cudaSuccess; }
cudaError_t cudaGetDeviceCount(int *n) { if (env->gpu_error) { *n = 0; return cudaError_t(env->gpu_error); } *n = 4; return cudaSuccess; }
cudaError_t cudaGetDeviceProperties(cudaDeviceProp *p, int d)
{
    if (env->gpu_error || env->gpu_prop_error || d < 0 || d > 3) { sim::Outside o; sim::count("fault.gpu_properties_failed"); return cudaErrorInvalidValue; }
    if (d != 3) { strcpy(p->name, "another device"); return cudaSuccess; }
    strcpy(p->name, env->gpu.c_str());
    return cudaSuccess;
}

// ---------------------------------------------------------------- reference
static std::string trim(const std::string& s)
{
    size_t a = s.find_first_not_of(' '), b = s.find_last_not_of(' ');
    return a == std::string::npos ? std::string() : s.substr(a, b - a + 1);
}
static std::vector<std::string> split(const std::string& s, char d)
{
    std::vector<std::string> r;
    size_t a = 0;
    for (;;) {
        size_t b = s.find(d, a);
        if (b == std::string::npos) { r.push_back(s.substr(a)); return r; }
        r.push_back(s.substr(a, b - a));
        a = b + 1;
    }
}
// which text does the tool deliver? empty: none
// (a value may be repeated, and be cut off or missing then: keep decides if that counts)
static std::string reference_tool(const std::string& text, bool keep)
{
    std::string type, name;
    std::vector<std::string> lines = split(text, '\n');
    for (size_t i = 0; i < lines.size(); ++i) {
        std::vector<std::string> t = split(lines[i], ',');
        for (size_t k = 0; k + 1 < t.size(); ++k) {
            std::string v = trim(t[k + 1]);
            if (keep && v.empty()) continue;
            if (t[k].find("CPU type") != std::string::npos) type = v;
            if (t[k].find("CPU name") != std::string::npos) name = v;
        }
    }
    return type.empty() || name.empty() ? std::string() : type + ", " + name;
}
static std::string reference_list(const std::string& text)
{
    std::vector<std::string> lines = split(text, '\n');
    for (size_t i = 0; i < lines.size(); ++i) {
        size_t c = lines[i].find(':');
        if (c == std::string::npos) continue;
        std::string key = lines[i].substr(0, c), value = trim(lines[i].substr(c + 1));
        while (!key.empty() && (key.back() == ' ' || key.back() == '\t')) key.resize(key.size() - 1);
        if ((trim(key) == "cpu" || trim(key) == "model name") && !value.empty()) return value;
    }
    return std::string();
}
static std::string complete_lines(const std::string& s) { size_t n = s.rfind('\n'); return n == std::string::npos ? std::string() : s.substr(0, n + 1); }
static std::string up_to_long_line(const std::string& s)
{
    size_t a = 0;
    while (a < s.size()) {
        size_t b = s.find('\n', a);
        if (b == std::string::npos) b = s.size();
        if (b - a >= 4095) return s.substr(0, a);
        a = b + 1;
    }
    return s;
}
static Texts acceptable_cpu(const std::string& placeholder)
{
    Texts tool, list, r;
    const Source &t = env->tool, &l = env->list;
    if (t.opens) for (int keep = 0; keep < 2; ++keep) { tool.insert(reference_tool(t.text, keep)); if (t.breaks) tool.insert(reference_tool(complete_lines(t.text), keep)); } else tool.insert("");
    if (l.opens) {
        list.insert(reference_list(l.text));
        if (l.breaks) list.insert(reference_list(complete_lines(l.text)));
        // lists with over-long lines may be read in part only
        if (up_to_long_line(l.text) != l.text) list.insert(reference_list(up_to_long_line(l.text)));
    } else list.insert("");
    for (Texts::iterator i = tool.begin(); i != tool.end(); ++i) {
        if (!i->empty()) { r.insert(*i); continue; }
        for (Texts::iterator k = list.begin(); k != list.end(); ++k) r.insert(k->empty() ? placeholder : *k);
    }
    return r;
}
static std::string stamp(int64_t s)
{
    static const char *names[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
    int64_t days = s / 86400, rest = s % 86400, year = 1970;
    for (;;) {
        bool leap = (year % 4 == 0 && year % 100 != 0) || year % 400 == 0;
        int64_t len = leap ? 366 : 365;
        if (days >= 146097) { days -= 146097; year += 400; continue; }
        if (days < len) {
            int lengths[] = { 31, leap ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
            int m = 0;
            while (days >= lengths[m]) days -= lengths[m++];
            char buf[100];
            snprintf(buf, sizeof(buf), "%lld-%s-%02d %02d:%02d:%02d", (long long)year, names[m], int(days + 1), int(rest / 3600), int(rest / 60 % 60), int(rest % 60));
            return buf;
        }
        days -= len; ++year;
    }
}

// ---------------------------------------------------------------- generators
static std::string word()
{
    static const char *w[] = { "Intel(R) Xeon(R) Processor", "AMD EPYC 7702 64-Core Processor", "POWER9 (architected)", "A", "ARMv8 Processor rev 4 (v8l)",
                               "Intel(R)  Core(TM) i7-4770 CPU @ 3.40GHz", "CPU type X", "x y", "cpu", "model name", "Z80\t", "unknown" };
    std::string s = sim::pick(w);
    if (sim::chance(1, 12)) s = std::string(sim::range(1, 300), char('a' + sim::choose(26)));
    return s;
}
static std::string blanks() { return std::string(sim::chance(1, 3) ? sim::choose(4) : 0, ' '); }
static Source tool_output()
{
    Source s;
    size_t kind = sim::choose(6);
    if (kind == 0) { s.opens = false; s.open_error = sim::choose(2) ? EMFILE : ENOMEM; return s; }
    s.status = sim::choose(3) ? 0 : 127 << 8;
    if (kind == 1) return s;                                  // not installed: no output
    static const char *noise[] = { "--------------------------------------------------------------------------------\n", "STRUCT,Info,5\n", "CPU stepping:,1\n", "\n", ",,,\n", "CPU type\n", "CPU name\n",
                                   "TABLE,Topology,1,2\n", "HWThread,Thread,Core,Socket\n", "0,0,0,0\n", "********\n" };
    bool type = sim::chance(5, 6), name = sim::chance(5, 6), swapped = sim::choose(2) != 0;
    std::string value[2], line[2];
    for (int i = 0; i < 2; ++i) {
        value[i] = sim::chance(1, 10) ? std::string() : word();
        if (value[i].find("CPU type") != std::string::npos || value[i].find('\t') != std::string::npos) value[i] = "K10";
        line[i] = std::string(i ? "CPU name" : "CPU type") + (sim::choose(2) ? ":" : "") + blanks() + "," + blanks() + value[i] + blanks() + std::string(sim::choose(3) ? sim::choose(4) : 0, ',') + "\n";
    }
    for (int i = 0; i < 2; ++i) {
        while (sim::choose(3)) s.text += sim::pick(noise);
        int k = swapped ? 1 - i : i;
        if (k ? name : type) { s.text += line[k]; if (sim::chance(1, 6)) s.text += line[k]; }
    }
    while (sim::choose(3)) s.text += sim::pick(noise);
    if (sim::chance(1, 8)) { std::string z; size_t n = sim::range(1, 400); for (size_t i = 0; i < n; ++i) z += "CPU clock:,2.1 GHz,,,\n"; s.text = z + s.text; }
    if (sim::chance(1, 4)) { s.text.resize(sim::choose(s.text.size() + 1)); sim::count("fault.tool_output_truncated"); }
    s.breaks = sim::chance(1, 6);
    return s;
}
static Source cpu_list()
{
    Source s;
    size_t kind = sim::choose(8);
    if (kind == 0) { s.opens = false; s.open_error = sim::choose(2) ? EACCES : EMFILE; return s; }
    if (kind == 1) return s;
    static const char *before[] = { "processor\t: 0\n", "vendor_id\t: GenuineIntel\n", "cpu family\t: 6\n", "model\t\t: 207\n", "\n", "model name\n", "cpu\n", "no colon here\n", "flags\t\t:\n", "cpu MHz\t\t: 2100.000\n", ":\n", ": x\n", "cpuid level\t: 13\n", "model name long\t: no\n", "cpu cores\t: 4\n" };
    static const char *key[] = { "model name\t: ", "model name\t:", "cpu\t\t: ", "cpu\t: ", "model name: " };
    size_t cpus = sim::range(1, 3);
    for (size_t c = 0; c < cpus; ++c) {
        while (sim::choose(5)) s.text += sim::pick(before);
        if (sim::chance(1, 40)) { s.text += "flags\t\t: " + std::string(sim::range(4000, 9000), 'f') + "\n"; sim::count("reach.overlong_line"); }
        if (sim::chance(1, 12)) s.text += std::string(sim::pick(key)) + blanks() + "\n";
        if (kind != 2) { std::string w = word(); if (w.find('\t') != std::string::npos) w = "Alpha"; s.text += sim::pick(key) + blanks() + w + blanks() + "\n"; }
        while (sim::choose(4)) s.text += sim::pick(before);
        s.text += "\n";
    }
    if (sim::chance(1, 4)) { s.text.resize(sim::choose(s.text.size() + 1)); sim::count("fault.cpu_list_truncated"); }
    s.breaks = sim::chance(1, 6);
    return s;
}

// ---------------------------------------------------------------- benchmarks
struct Script
{
    std::string family, species, unit;
    double result;
    bool throws;
    std::vector<std::vector<int> > calls;
};
struct CpuBench : public LibFlatArray::cpu_benchmark
{
    Script *s;
    explicit CpuBench(Script *s) : s(s) {}
    std::string family() { return s->family; }
    std::string species() { return s->species; }
    std::string unit() { return s->unit; }
    double performance(std::vector<int> dim)
    {
        { sim::Outside o; s->calls.push_back(std::vector<int>(dim.begin(), dim.end())); }
        if (s->throws) throw std::runtime_error("benchmark failed");
        // what it does in between takes time, and it reads the clock itself
        double a = time(), b = time();
        (void)a; (void)b;
        return s->result;
    }
};
struct GpuBench : public LibFlatArray::gpu_benchmark
{
    Script *s;
    explicit GpuBench(Script *s) : s(s) {}
    std::string family() { return s->family; }
    std::string species() { return s->species; }
    std::string unit() { return s->unit; }
    double performance(std::vector<int> dim) { sim::Outside o; s->calls.push_back(std::vector<int>(dim.begin(), dim.end())); if (s->throws) throw std::runtime_error("benchmark failed"); return s->result; }
};
struct FixedBench : public LibFlatArray::benchmark
{
    Script *s;
    std::string d;
    FixedBench(Script *s, const std::string& d) : s(s), d(d) {}
    std::string order() { return "XPU"; }
    std::string device() { return d; }
    std::string family() { return s->family; }
    std::string species() { return s->species; }
    std::string unit() { return s->unit; }
    double performance(std::vector<int> dim) { sim::Outside o; s->calls.push_back(std::vector<int>(dim.begin(), dim.end())); if (s->throws) throw std::runtime_error("benchmark failed"); return s->result; }
};

// ---------------------------------------------------------------- terminal, may be full
struct Sink : public std::streambuf
{
    std::string text;
    size_t room;
    Sink() : room(~size_t(0)) {}
    int overflow(int c) { sim::Outside o; if (text.size() >= room) { sim::count("fault.output_full"); return EOF; } if (c != EOF) text += char(c); return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char *p, std::streamsize n)
    {
        sim::Outside o;
        size_t k = std::min(size_t(n), room - std::min(room, text.size()));
        text.append(p, k);
        if (k < size_t(n)) sim::count("fault.output_full");
        return std::streamsize(k);
    }
};
static Sink *sink;
// whatever else writes to standard output arrives there as well
static ssize_t stdout_write(void*, const char *p, size_t n)
{
    ssize_t k = ssize_t(sink->xsputn(p, std::streamsize(n)));
    if (!k && n) { errno = ENOSPC; return 0; }
    return k;
}
extern "C" {
ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_write(int fd, const void *p, size_t n)
{
    if (fd != 1 || !env || !sink || !sim::in_lib()) return __real_write(fd, p, n);
    ssize_t k = ssize_t(sink->xsputn(static_cast<const char*>(p), std::streamsize(n)));
    if (!k && n) { errno = ENOSPC; return -1; }
    return k;
}
}

static void no_leftovers(const char *when)
{
    if (!env->pipes.empty()) sim::fail("child-left", "after %s the pipe to the topology tool is still open", when);
    if (!env->files.empty()) sim::fail("file-left", "after %s the CPU list is still open", when);
    sim::check_no_leaks(when);
}
static std::string cpu_text(const char *when)
{
    std::string *r = new std::string();
    Script s;
    s.throws = false;
    bool ok = true;
    {
        sim::LibOp op("device()");
        try {
            CpuBench b(&s);
            std::string d = b.device();
            sim::Outside o;
            r->assign(d.data(), d.size());
        } catch (...) { ok = false; }
    }
    if (!ok) sim::fail("unexpected-error", "describing the CPU failed with an exception");
    no_leftovers(when);
    std::string ret = *r;
    delete r;
    return ret;
}
static std::string show(const std::string& s) { std::string r; for (size_t i = 0; i < s.size() && i < 120; ++i) { char b[8]; if (s[i] >= 32 && s[i] < 127) r += s[i]; else { snprintf(b, sizeof(b), "\\x%02x", (unsigned char)s[i]); r += b; } } return r; }
static std::string show(const Texts& t) { std::string r; for (Texts::const_iterator i = t.begin(); i != t.end(); ++i) r += (r.empty() ? "'" : " or '") + show(*i) + "'"; return r; }

static void change_environment(bool all)
{
    if (all || sim::choose(2)) env->tool = tool_output();
    if (all || sim::choose(2)) env->list = cpu_list();
    env->small_reads = sim::chance(1, 3);
    env->interrupts = sim::chance(1, 4);
    env->jump = int(sim::choose(3));
    if (all || sim::choose(2)) {
        static const size_t lengths[] = { 0, 1, 8, 31, 32, 63, 64, 127, 128, 253, 255, 1000, 2046, 2047, 2048, 2100 };
        size_t n = sim::choose(3) ? sim::range(1, 40) : sim::pick(lengths);
        env->host = n ? std::string(n - 1, char('a' + sim::choose(26))) + "z" : std::string();
        env->host_fails = sim::chance(1, 10);
    }
    env->gpu_error = sim::chance(1, 4) ? (sim::choose(2) ? cudaErrorNoDevice : cudaErrorInsufficientDriver) : 0;
    env->gpu_prop_error = sim::chance(1, 6);
    env->gpu = sim::choose(4) ? "Tesla V100-SXM2-16GB" : std::string(255, 'g');
    static const int64_t epochs[] = { 0, 1, 68169599, 68169600, 951782399, 951868800, 1234567890, 2147483647, 2147483648ll, 4107542399ll, 4294967296ll, 9151574399ll, 9151574400ll };
    if (all || sim::chance(1, 3)) { env->sec = sim::choose(2) ? sim::pick(epochs) : int64_t(sim::choose(2000000000)) ; env->usec = int64_t(sim::choose(1000000)); }
}
static std::string token(bool empty_ok)
{
    static const char *w[] = { "JacobiD3Q7", "LBM", "gold", "pepper", "vanilla", "GLUPS", "a", "family with spaces", "a name which is definitely longer than the column it is printed in", "%s%n", "100%" };
    if (empty_ok && sim::chance(1, 6)) return "";
    return sim::pick(w);
}
template<typename B> void evaluate_one(const B& bench, Script& s, const Texts& device, const char *order)
{
    std::string revision = token(true), name;
    size_t sel = sim::choose(5);
    if (sel == 0) name = ""; else if (sel == 1) name = s.family;
    else if (sel == 2) { size_t a = sim::choose(s.family.size() + 1); name = s.family.substr(a, sim::choose(s.family.size() - a + 1)); }
    else if (sel == 3) name = s.family + "x"; else name = token(false);
    bool selected = s.family.find(name) != std::string::npos, output = sim::chance(5, 6);
    std::vector<int> dim;
    size_t nd = sim::range(1, 4);
    for (size_t i = 0; i < nd; ++i) { static const int e[] = { 0, -1, 2147483647, -2147483647 - 1 }; dim.push_back(sim::chance(1, 6) ? sim::pick(e) : int(sim::choose(100000))); }
    static const double results[] = { 0, -0.0, 1, 1234567.0, 1e-300, 1e300, 0.1, 123456.5, -3.25, HUGE_VAL, -HUGE_VAL };
    s.result = sim::choose(8) ? (sim::choose(2) ? sim::pick(results) : double(sim::choose(1000000)) / 997.0) : NAN;
    s.throws = sim::chance(1, 10);
    s.calls.clear();
    sink->text.clear();
    sink->room = sim::chance(1, 8) ? sim::choose(240) : ~size_t(0);
    env->readings.clear();
    sim::event("evaluate(name '%s') %s '%s' output=%d%s%s", name.c_str(), order, s.family.c_str(), int(output), s.throws ? " throws" : "", sink->room != ~size_t(0) ? " output full" : "");
    bool threw = false, other = false;
    {
        sim::LibOp op("evaluate");
        try {
            LibFlatArray::evaluate eval(name, revision);
            eval(bench, std::vector<int>(dim.begin(), dim.end()), output);
        } catch (const std::runtime_error&) { threw = true; } catch (...) { other = true; }
    }
    no_leftovers("a report");
    if (other || threw != (selected && s.throws)) sim::fail("unexpected-error", "evaluating a benchmark %s", threw || other ? "failed although it did not" : "hid the benchmark's error");
    if (s.calls.size() != (selected ? 1u : 0u)) sim::fail("wrong-report", "benchmark of family '%s' ran %zu times with name filter '%s'", s.family.c_str(), s.calls.size(), name.c_str());
    if (selected && s.calls[0] != dim) sim::fail("wrong-report", "benchmark ran with other dimensions than requested");
    std::string text = sink->text;
    bool full = sink->room != ~size_t(0) && text.size() >= sink->room;
    std::cout.clear(); clearerr(stdout);
    if (!selected || !output || s.throws) {
        if (!text.empty()) sim::fail("wrong-report", "a report was printed, but none was expected: %s", show(text).c_str());
        return;
    }
    if (sink->room == 0 || (full && text.size() < 20)) return;
    if (!full && (text.empty() || text.back() != '\n' || text.find('\n') + 1 != text.size())) sim::fail("wrong-report", "report is not exactly one line: %s", show(text).c_str());
    if (!full) text.resize(text.size() - 1);
    std::vector<std::string> fields = split(text, ';');
    std::ostringstream d;
    d << "(";
    for (size_t i = 0; i < dim.size(); ++i) d << (i ? ", " : "") << dim[i];
    d << ")";
    char perf[100];
    snprintf(perf, sizeof(perf), "%g", s.result);
    if (!full && fields.size() != 10) sim::fail("wrong-report", "report has %zu columns: %s", fields.size(), show(text).c_str());
    for (size_t i = 0; i < fields.size() && i < 10; ++i) {
        if (full && i + 1 == fields.size()) break;       // cut off
        std::string f = trim(fields[i]);
        Texts ok;
        switch (i) {
        case 0: ok.insert(trim(revision)); break;
        case 1: for (size_t k = 0; k < env->readings.size(); ++k) ok.insert(stamp(env->readings[k])); break;
        case 2: ok.insert(env->host_fails ? std::string() : env->host);
            // longer than any host name may be: a prefix will do
            if (env->host.size() > 255 && f.size() >= 255 && env->host.compare(0, f.size(), f) == 0) ok.insert(f);
            if (env->host_fails) ok.insert(f.substr(0, 64));
            break;
        case 3: for (Texts::const_iterator k = device.begin(); k != device.end(); ++k) ok.insert(trim(*k)); break;
        case 4: ok.insert(order); break;
        case 5: ok.insert(trim(s.family)); break;
        case 6: ok.insert(trim(s.species)); break;
        case 7: ok.insert(d.str()); break;
        case 8: ok.insert(perf); break;
        default: ok.insert(trim(s.unit));
        }
        if (!ok.count(f)) sim::fail("wrong-report", "column %zu of the report is '%s', expected %s", i, show(f).c_str(), show(ok).c_str());
    }
    sim::count("reach.reports_checked");
}
void sim_run()
{
    env = new Env();
    sink = new Sink();
    env->pipes.clear();
    static const char *zones[] = { "UTC0", "EST5EDT", "CET-1CEST", "NZST-12", "XXX+11:30" };
    setenv("TZ", sim::pick(zones), 1);
    tzset();
    sim::set_preemption_mean(0);
    std::streambuf *old = std::cout.rdbuf(sink);
    FILE *real_stdout = stdout;
    cookie_io_functions_t to_sink = { 0, stdout_write, 0, 0 };
    stdout = fopencookie(0, "w", to_sink);
    setvbuf(stdout, 0, _IONBF, 0);
    sim::mark_nontrivial();
    change_environment(true);
    // the placeholder is what is reported if there is no source at all
    Source none;
    none.opens = false;
    Source t = env->tool, l = env->list;
    env->tool = none; env->list = none;
    std::string placeholder = cpu_text("describing the CPU");
    env->tool = t; env->list = l;
    if (placeholder.empty() || placeholder.find('\n') != std::string::npos) sim::fail("unusable", "the placeholder for an unknown CPU is '%s'", show(placeholder).c_str());
    int e = env->gpu_error;
    std::string gpu_placeholder;
    Script s;
    s.throws = false;
    env->gpu_error = cudaErrorNoDevice;
    { sim::LibOp op("device()"); GpuBench g(&s); std::string d = g.device(); sim::Outside o; gpu_placeholder.assign(d.data(), d.size()); }
    env->gpu_error = e;
    if (gpu_placeholder.empty() || gpu_placeholder.find('\n') != std::string::npos) sim::fail("unusable", "the placeholder for an unknown GPU is '%s'", show(gpu_placeholder).c_str());
    { std::string d; { sim::LibOp op("device()"); GpuBench g(&s); std::string x = g.device(); sim::Outside o; d.assign(x.data(), x.size()); }
      if (d != (env->gpu_error || env->gpu_prop_error ? gpu_placeholder : env->gpu)) sim::fail("wrong-device", "GPU is described as '%s'", show(d).c_str()); }
    { sim::LibOp op("print_header()"); LibFlatArray::evaluate("", "").print_header(); }
    if (split(sink->text, ';').size() != 10 || sink->text.find('\n') + 1 != sink->text.size()) sim::fail("wrong-report", "the header is not one line of ten columns");
    size_t steps = sim::range(1, 6);
    for (size_t i = 0; i < steps; ++i) {
        if (i && sim::choose(2)) change_environment(false);
        Texts cpu = acceptable_cpu(placeholder);
        s.family = token(false); s.species = token(true); s.unit = token(true);
        switch (sim::choose(5)) {
        case 0: {
            sim::event("describe CPU: tool %d %zu bytes %s, list %d %zu bytes %s", int(env->tool.opens), env->tool.text.size(), env->tool.breaks ? "breaks" : "", int(env->list.opens), env->list.text.size(), env->list.breaks ? "breaks" : "");
            std::string d = cpu_text("describing the CPU");
            if (!cpu.count(d)) sim::fail("wrong-device", "CPU is described as '%s', expected %s", show(d).c_str(), show(cpu).c_str());
            sim::observe(sim::hash_bytes(d.data(), d.size()));
            break;
        }
        case 1: {
            double a;
            env->readings.clear();
            { sim::LibOp op("time()"); a = LibFlatArray::benchmark::time(); }
            sim::event("time() = %.3f", a);
            double want = double(env->sec) + double(env->usec) * 1e-6;
            if (fabs(a - want) > 1e-5 + want * 1e-15) sim::fail("wrong-time", "time() returns %f, clock shows %f", a, want);
            break;
        }
        case 2: { Texts g; g.insert(env->gpu_error || env->gpu_prop_error ? gpu_placeholder : env->gpu); evaluate_one(GpuBench(&s), s, g, "GPU"); break; }
        case 3: { Texts g; g.insert("some device"); FixedBench b(&s, "some device"); evaluate_one(b, s, g, "XPU"); break; }
        default: sim::event("sources: tool %d %zu bytes, list %d %zu bytes", int(env->tool.opens), env->tool.text.size(), int(env->list.opens), env->list.text.size()); evaluate_one(CpuBench(&s), s, cpu, "CPU");
        }
    }
    std::cout.rdbuf(old);
    __real_fclose(stdout);
    stdout = real_stdout;
    no_leftovers("all reports");
}

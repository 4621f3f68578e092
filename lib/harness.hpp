// Explorer harness: command line, crash-visible case slots, counters,
// violations with replay files, known findings.
//
//   explorer --prop C01 --part scalar --tier quick --shard 0/8 --out DIR [--known FILE]
//   explorer --replay FILE
//
// An explorer defines  void explore(Run&)  and  std::string replayCase(Run&, const J&)
// (empty string: the case holds).
#pragma once
#include "mj.hpp"
#include <chrono>
#include <csignal>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>

#ifndef VH_SLOT
#define VH_SLOT 65536
#endif

struct Run {
    std::string prop, part, tier = "quick", out, knownFile;
    int shard = 0, nshards = 1;
    bool replaying = false;
    uint64_t seed = 1;
    std::map<std::string, uint64_t> counters;     // summed over shards
    std::map<std::string, std::set<uint64_t>> distinct;  // hashed sets, merged over shards
    std::vector<J> samples;
    std::vector<J> violations;
    std::map<std::string, uint64_t> knownHits;
    std::set<std::string> known;
    char *slots = nullptr;                         // mmapped: 4 slots
    volatile uint64_t progress = 0;
    size_t maxViolations = 3;

    bool thorough() const { return tier == "thorough"; }
    uint64_t &c(const std::string &k) { return counters[k]; }

    // Where we are, readable after a crash. Slot 0: long-lived part (schema),
    // slot 1: per-case part. Both are JSON text; the runner splices them.
    void slot(int k, const std::string &text) {
        progress++;
        if (!slots) return;
        char *p = slots + (size_t)k * VH_SLOT;
        size_t n = text.size() < VH_SLOT - 8 ? text.size() : 0;
        uint32_t len = (uint32_t)n;
        memcpy(p, &len, 4);
        memcpy(p + 4, text.data(), n);
    }
    void sample(const J &v, size_t cap = 3) { if (samples.size() < cap) samples.push_back(v); }
    static uint64_t hash(const std::string &s) {
        uint64_t h = 1469598103934665603ull;
        for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; }
        return h;
    }
    bool mine(uint64_t index) const { return (int)(index % (uint64_t)nshards) == shard; }
    // Returns false when enough violations have been collected.
    bool violation(const J &caseJson, const std::string &message) {
        std::string key = caseJson.str();
        if (known.count(key)) { knownHits[key]++; return true; }
        J v = J::obj({{"case", caseJson}, {"message", message}});
        violations.push_back(v);
        flush(false);
        return violations.size() < maxViolations;
    }
    bool full() const { return violations.size() >= maxViolations; }
    void flush(bool done) {
        if (out.empty()) return;
        J r = J::obj();
        J cs = J::obj(); for (auto &k : counters) cs.set(k.first, J((unsigned long)k.second));
        r.set("counters", cs);
        J vs = J::arr(); for (auto &v : violations) vs.push(v);
        r.set("violations", vs);
        J ss = J::arr(); for (auto &v : samples) ss.push(v);
        r.set("samples", ss);
        J ks = J::obj(); for (auto &k : knownHits) ks.set(k.first, J((unsigned long)k.second));
        r.set("known", ks);
        J ds = J::obj();
        for (auto &d : distinct) {
            J l = J::obj(); l.set("n", J((unsigned long)d.second.size()));
            ds.set(d.first, l);
        }
        r.set("distinct", ds);
        r.set("done", J(done));
        std::string f = out + "/shard-" + part + "-" + std::to_string(shard) + ".json";
        std::ofstream(f + ".tmp") << r.str();
        rename((f + ".tmp").c_str(), f.c_str());
        if (done) for (auto &d : distinct) {
            std::ofstream b(out + "/set-" + part + "-" + std::to_string(shard) + "-" + d.first, std::ios::binary);
            for (uint64_t h : d.second) b.write((const char *)&h, 8);
        }
    }
};

void explore(Run &);
std::string replayCase(Run &, const J &);

static Run *g_run = nullptr;
static volatile uint64_t g_last = 0;
static int g_hangLimit = 20;
static void vhAlarm(int) {
    static int same = 0;
    if (!g_run) return;
    if (g_run->progress == g_last) same += 1; else same = 0;
    g_last = g_run->progress;
    if (same >= g_hangLimit) {
        static const char m[] = "VH-HANG\n";
        ssize_t r = write(2, m, sizeof m - 1); (void)r;
        _exit(97);
    }
}

#ifndef VH_NO_MAIN
int main(int argc, char **argv) {
    Run run;
    std::string replay, slotFile;
    for (int k = 1; k < argc; k++) {
        std::string a = argv[k];
        auto next = [&]() { return std::string(k + 1 < argc ? argv[++k] : ""); };
        if (a == "--prop") run.prop = next();
        else if (a == "--part") run.part = next();
        else if (a == "--tier") run.tier = next();
        else if (a == "--shard") { auto s = next(); sscanf(s.c_str(), "%d/%d", &run.shard, &run.nshards); }
        else if (a == "--out") run.out = next();
        else if (a == "--known") run.knownFile = next();
        else if (a == "--seed") run.seed = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--slots") slotFile = next();
        else if (a == "--hang") g_hangLimit = atoi(next().c_str());
        else if (a == "--replay") replay = next();
    }
    g_run = &run;
    if (const char *e = getenv("VH_MAX")) run.maxViolations = (size_t)atoi(e);
    if (!slotFile.empty()) {
        int fd = open(slotFile.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, 4 * VH_SLOT) != 0) { perror("slots"); return 2; }
        run.slots = (char *)mmap(nullptr, 4 * VH_SLOT, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        memset(run.slots, 0, 4 * VH_SLOT);
        close(fd);
    }
    signal(SIGALRM, vhAlarm);
    struct itimerval tv; tv.it_interval.tv_sec = 1; tv.it_interval.tv_usec = 0; tv.it_value = tv.it_interval;
    setitimer(ITIMER_REAL, &tv, nullptr);
    if (!replay.empty()) {
        std::ifstream in(replay); std::stringstream ss; ss << in.rdbuf();
        J f = J::parse(ss.str());
        if (auto *p = f.get("property")) run.prop = p->s;
        if (auto *p = f.get("part")) run.part = p->s;
        run.replaying = true;
        std::string m = replayCase(run, *f.get("case"));
        if (m.empty()) { printf("replay: the case holds\n"); return 0; }
        printf("replay: VIOLATION %s\n", m.c_str());
        return 1;
    }
    if (!run.knownFile.empty()) {
        std::ifstream in(run.knownFile); std::stringstream ss; ss << in.rdbuf();
        if (!ss.str().empty()) {
            J f = J::parse(ss.str());
            if (J *l = f.get("findings")) for (auto &e : l->a) {
                const J *st = e.get("status"), *pr = e.get("property"), *ca = e.get("case");
                if (st && st->s == "known" && pr && pr->s == run.prop && ca) run.known.insert(ca->str());
            }
        }
    }
    try {
        explore(run);
    } catch (const std::exception &e) {
        fprintf(stderr, "explorer error: %s\n", e.what());
        return 3;
    }
    run.flush(true);
    return run.violations.empty() ? 0 : 1;
}
#endif

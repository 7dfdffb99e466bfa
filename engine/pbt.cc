#include "pbt.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <unordered_set>

namespace pbt {

using std::string;
using std::vector;

Registry& Registry::get() {
    static Registry r;
    return r;
}

static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
    auto c = static_cast<const uint8_t*>(p);
    for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ULL;
    return h;
}

string esc(const string& s) {
    string r;
    char b[8];
    for (unsigned char c : s) {
        if (c == '\n')
            r += "\\n";
        else if (c == '\r')
            r += "\\r";
        else if (c == '\t')
            r += "\\t";
        else if (c < 32 || c == 127) {
            snprintf(b, 8, "\\x%02x", c);
            r += b;
        } else if (c >= 128) {
            snprintf(b, 8, "\\x%02x", c);
            r += b;
        } else
            r.push_back((char)c);
    }
    return r;
}

// ---- shared memory: the worker's choices survive its death -----------------

constexpr size_t MAXCH = 1 << 16;
constexpr size_t MAXCLS = 96;
enum State : int { IDLE = 0, RUNNING, PASSED, FAILED, DISCARDED, TIMEDOUT };

struct Shared {
    std::atomic<uint64_t> cases, nontrivial, discards, excluded;
    std::atomic<int> state;
    std::atomic<int> finished;
    int facet;
    uint64_t index;
    std::atomic<uint32_t> nchoices;
    uint64_t choices[MAXCH];
    char msg[16384];
    char notes[65536];
    struct {
        char label[48];
        uint64_t n;
    } cls[MAXCLS];
};

static Shared* new_shared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(2);
    }
    return static_cast<Shared*>(p);
}
static Shared* sh = nullptr;

uint64_t Gen::below(uint64_t n) {
    uint64_t v = 0;
    if (n <= 1) {
        // still a choice, keeps the sequence aligned while shrinking
        n = 1;
    }
    switch (mode_) {
        case RANDOM:
        case BULK:
            v = n == 1 ? 0 : (uint64_t)(((__uint128_t)splitmix(state_) * n) >> 64);
            break;
        case REPLAY:
            if (pos_ < replay_.size()) {
                v = replay_[pos_++];
                if (v >= n) v = n - 1;
            }
            break;
        case BYTES: {
            uint64_t max = n - 1;
            while (max) {
                v <<= 8;
                if (pos_ < nbytes_) v |= bytes_[pos_++];
                max >>= 8;
            }
            v %= n;
            break;
        }
    }
    if (mode_ == BULK) return v;
    if (drawn_ >= MAXCH) throw Discard{};
    if (sh) {
        sh->choices[drawn_] = v;
        sh->nchoices.store(drawn_ + 1, std::memory_order_relaxed);
    } else {
        own_.push_back(v);
    }
    ++drawn_;
    return v;
}

size_t Gen::size(size_t lo, size_t hi) {
    if (hi <= lo) return lo;
    size_t span = hi - lo;
    switch (below(8)) {
        case 7:
            return lo + below(span + 1);
        case 6:
        case 5:
            return lo + below(std::min<size_t>(span, 16) + 1);
        default:
            return lo + below(std::min<size_t>(span, 5) + 1);
    }
}

size_t Gen::weighted(std::initializer_list<unsigned> w) {
    uint64_t sum = 0;
    for (auto i : w) sum += i;
    uint64_t r = below(sum);
    size_t k = 0;
    for (auto i : w) {
        if (r < i) return k;
        r -= i;
        ++k;
    }
    return 0;
}

void Gen::cls(const char* label) { labels_.push_back(label); }
void Gen::key(const string& k) {
    khash_ = fnv(k.data(), k.size(), haskey_ ? khash_ : 1469598103934665603ULL);
    haskey_ = true;
}

static string scratch_root;
static string scratch_dir;
string scratch() {
    if (scratch_dir.empty()) {
        scratch_dir = scratch_root + "/" + std::to_string(getpid());
        mkdir(scratch_dir.c_str(), 0700);
    }
    return scratch_dir;
}
static void rm_rf(const string& path) {
    // only ever called on directories below our own scratch root
    if (scratch_root.empty() || path.compare(0, scratch_root.size(), scratch_root)) return;
    struct stat st;
    if (lstat(path.c_str(), &st)) return;
    if (S_ISDIR(st.st_mode)) {
        if (DIR* d = opendir(path.c_str())) {
            while (dirent* e = readdir(d)) {
                string n = e->d_name;
                if (n != "." && n != "..") rm_rf(path + "/" + n);
            }
            closedir(d);
        }
        rmdir(path.c_str());
    } else {
        unlink(path.c_str());
    }
}

static void on_cpu(int) {
    if (sh) {
        strcpy(sh->msg, "the case did not terminate within its CPU time limit");
        sh->state = TIMEDOUT;
    }
    _exit(99);
}

struct Engine {
    string tier{"quick"};
    uint64_t seed{1};
    string evidence, replays{"/tmp"}, known, fuzzbin;
    double cap{0};
    double scale{1};
    unsigned workers{8};
    int verbose{0};

    struct Result {
        int state{IDLE};
        string msg, notes;
        vector<uint64_t> choices;
    };

    static void arm(unsigned sec) {
        itimerval t{};
        t.it_value.tv_sec = sec;
        setitimer(ITIMER_PROF, &t, nullptr);
    }

    // runs one case in this process; false if it failed (sh has the details)
    static bool run_here(Gen& g, const Facet& f) {
        sh->nchoices = 0;
        sh->msg[0] = 0;
        sh->state = RUNNING;
        arm(Registry::get().case_cpu_seconds);
        try {
            f.fn(g);
            sh->state = PASSED;
        } catch (const Discard&) {
            sh->state = DISCARDED;
        } catch (const Failure& e) {
            snprintf(sh->msg, sizeof sh->msg, "%s", e.msg.c_str());
            sh->state = FAILED;
        } catch (const std::exception& e) {
            snprintf(sh->msg, sizeof sh->msg, "uncaught exception: %s", e.what());
            sh->state = FAILED;
        }
        snprintf(sh->notes, sizeof sh->notes, "%s", g.notes_.c_str());
        return sh->state != FAILED;
    }

    static void child_setup() {
        signal(SIGPROF, on_cpu);
        scratch_dir.clear();
        if (Registry::get().worker_init) Registry::get().worker_init();
    }

    static string tail_of(const string& path) {
        std::ifstream in(path);
        string s, line;
        int n = 0;
        while (std::getline(in, line) && n < 40) {
            if (line.find("WARNING: ASan") != string::npos) continue;
            s += line + "\n";
            ++n;
        }
        if (s.size() > 4000) s.resize(4000);
        return s;
    }

    static string describe_death(int st) {
        if (WIFSIGNALED(st)) return string("killed by signal ") + strsignal(WTERMSIG(st));
        return "exit code " + std::to_string(WEXITSTATUS(st));
    }

    // runs a function in a fresh child; the parent's state stays pristine
    Result in_child(const std::function<bool()>& fn) {
        Result r;
        sh->nchoices = 0;
        sh->msg[0] = 0;
        sh->notes[0] = 0;
        sh->state = RUNNING;
        string err = scratch_root + "/stderr.one";
        fflush(stdout);
        fflush(stderr);
        pid_t pid = fork();
        if (pid < 0) {
            perror("fork");
            exit(2);
        }
        if (!pid) {
            int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 2);
            dup2(fd, 1);
            setpgid(0, 0);
            child_setup();
            Gen::mirror() = [](const string& n) { snprintf(sh->notes, sizeof sh->notes, "%s", n.c_str()); };
            fn();
            rm_rf(scratch());
            _exit(0);
        }
        int st = 0;
        wait_child(pid, st);
        r.state = sh->state;
        r.msg = sh->msg;
        r.notes = sh->notes;
        r.choices.assign(sh->choices, sh->choices + sh->nchoices);
        if (r.state == RUNNING) {
            r.state = FAILED;
            r.msg = "the process died: " + describe_death(st) + "\n" + tail_of(err);
        } else if (r.state == TIMEDOUT) {
            r.state = FAILED;
        }
        rm_rf(scratch_root + "/" + std::to_string(pid));
        return r;
    }

    static void wait_child(pid_t pid, int& st) {
        // a wall-clock bound, far above the CPU bound: a blocked child
        time_t t0 = time(nullptr);
        for (;;) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) return;
            if (r < 0 && errno != EINTR) return;
            if (time(nullptr) - t0 > 240) {
                kill(-pid, SIGKILL);
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                strcpy(sh->msg, "the case blocked for 240 s");
                sh->state = TIMEDOUT;
                return;
            }
            usleep(time(nullptr) - t0 > 1 ? 5000 : 200);
        }
    }

    static const unsigned MANY = 400;
    // a case whose outcome depends on the schedule is run up to so many times
    Result replay(const Facet& f, const vector<uint64_t>& ch, unsigned times = 0) {
        Result r;
        unsigned n = Registry::get().tries;
        if (n > 1 && times) n = times;
        double t0 = now();
        for (unsigned i = 0; i < n; ++i) {
            if (i && now() - t0 > 30) break;
            r = in_child([&] {
                Gen g{ch};
                return run_here(g, f);
            });
            if (r.state == FAILED) break;
        }
        return r;
    }

    static string kind(const string& msg) {
        if (msg.compare(0, 11, "the process") == 0) return "death";
        if (msg.compare(0, 8, "the case") == 0) return "hang";
        return "oracle";
    }

    Result shrink(const Facet& f, Result best, int& tried) {
        double t0 = now();
        double budget = tier == "quick" ? 60 : 120;
        int limit = 4000;
        string k = kind(best.msg);
        if (k == "hang") budget = 150;
        auto attempt = [&](vector<uint64_t> cand) {
            if (cand == best.choices) return false;
            if (tried >= limit || now() - t0 > budget) return false;
            ++tried;
            Result r = replay(f, cand);
            if (r.state != FAILED || kind(r.msg) != k) return false;
            if (r.choices.size() > best.choices.size()) return false;
            if (r.choices.size() == best.choices.size() &&
                !(r.choices < best.choices))
                return false;
            best = r;
            return true;
        };
        auto out_of_time = [&] { return tried >= limit || now() - t0 > budget; };
        bool improved = true;
        while (improved && !out_of_time()) {
            improved = false;
            // delete chunks
            for (size_t len = std::max<size_t>(1, best.choices.size() / 2); len && !out_of_time();
                 len = len / 2) {
                for (size_t i = 0; i + len <= best.choices.size() && !out_of_time();) {
                    auto c = best.choices;
                    c.erase(c.begin() + i, c.begin() + i + len);
                    if (attempt(c)) {
                        improved = true;
                    } else {
                        i += std::max<size_t>(1, len / 2);
                    }
                }
                if (len == 1) break;
            }
            // zero chunks
            for (size_t len : {16, 4}) {
                for (size_t i = 0; i + len <= best.choices.size() && !out_of_time(); i += len) {
                    auto c = best.choices;
                    std::fill(c.begin() + i, c.begin() + i + len, 0);
                    if (attempt(c)) improved = true;
                }
            }
            // minimise each
            for (size_t i = 0; i < best.choices.size() && !out_of_time(); ++i) {
                uint64_t v = best.choices[i];
                if (!v) continue;
                auto c = best.choices;
                c[i] = 0;
                if (attempt(c)) {
                    improved = true;
                    continue;
                }
                uint64_t lo = 0, hi = v;
                int steps = 0;
                while (lo + 1 < hi && steps++ < 40 && !out_of_time()) {
                    uint64_t mid = lo + (hi - lo) / 2;
                    c = best.choices;
                    if (i >= c.size()) break;
                    c[i] = mid;
                    if (attempt(c)) {
                        improved = true;
                        hi = mid;
                    } else {
                        lo = mid;
                    }
                }
                // lower this one and delete what it governed
                if (i < best.choices.size() && best.choices[i]) {
                    for (size_t del : {1, 2, 3, 4}) {
                        c = best.choices;
                        if (i + 1 + del > c.size()) break;
                        c[i] = c[i] - 1;
                        c.erase(c.begin() + i + 1, c.begin() + i + 1 + del);
                        if (attempt(c)) {
                            improved = true;
                            break;
                        }
                    }
                }
            }
        }
        return best;
    }

    static double now() {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + t.tv_nsec * 1e-9;
    }

    static string json(const string& s) {
        string r = "\"";
        char b[16];
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') {
                r += '\\';
                r += (char)c;
            } else if (c == '\n')
                r += "\\n";
            else if (c < 32 || c >= 127) {
                snprintf(b, 16, "\\u%04x", c);
                r += b;
            } else
                r += (char)c;
        }
        return r + "\"";
    }

    string save_replay(const string& facet, const Result& r) {
        mkdir(replays.c_str(), 0755);
        string body;
        body += "property " + string(Registry::get().id) + "\n";
        body += "facet " + facet + "\n";
        body += "choices";
        for (auto c : r.choices) body += " " + std::to_string(c);
        body += "\n---- message\n" + r.msg + "\n---- case\n" + r.notes + "\n";
        char name[96];
        string tag = facet.substr(0, facet.compare(0, 9, "@sequence") == 0 ? 9 : 40);
        for (auto& c : tag)
            if (!isalnum((unsigned char)c)) c = '_';
        snprintf(name, 96, "%s-%s-%08x.replay", Registry::get().id, tag.c_str(),
                 (unsigned)fnv(body.data(), body.size()));
        string path = replays + "/" + name;
        std::ofstream(path) << body;
        return path;
    }

    // replays three times; prints the VIOLATION line if it fails each time
    bool report(const string& facet, const Result& r, const std::function<Result()>& again) {
        int fails = 0;
        for (int i = 0; i < 3; ++i)
            if (again().state == FAILED) ++fails;
        printf("---- failing case (facet %s), failed in %d of 3 replays\n%s\n---- case\n%s\n",
               facet.c_str(), fails, r.msg.c_str(), r.notes.c_str());
        if (fails < 3) {
            printf("not reproducible: not reported as a violation\n");
            return false;
        }
        string path = save_replay(facet, r);
        printf("VIOLATION property=%s replay=%s\n", Registry::get().id, path.c_str());
        fflush(stdout);
        return true;
    }

    struct Stats {
        uint64_t cases{0}, nontrivial{0}, discards{0}, excluded{0};
        std::map<string, uint64_t> cls;
        std::map<string, uint64_t> facet_cases;
        std::unordered_set<uint64_t> distinct;
        vector<string> samples;
    } stats;

    static void worker(unsigned w, unsigned nw, const Facet& f, int fi, uint64_t total,
                       uint64_t seed, double deadline, const string& hashfile) {
        child_setup();
        std::unordered_set<uint64_t> seen;
        vector<string> samples;
        string longer;
        for (uint64_t idx = w; idx < total; idx += nw) {
            if ((idx / nw) % 16 == 0 && now() > deadline) break;
            Gen g{case_seed(seed, fi, idx)};
            sh->index = idx;
            if (!run_here(g, f)) {
                _exit(1);
            }
            sh->cases++;
            if (sh->state == DISCARDED) {
                sh->discards++;
                continue;
            }
            if (g.excluded_) sh->excluded++;
            for (auto l : g.labels_) {
                for (auto& c : sh->cls) {
                    if (!c.label[0]) snprintf(c.label, sizeof c.label, "%s", l);
                    if (!strncmp(c.label, l, sizeof(c.label) - 1)) {
                        c.n++;
                        break;
                    }
                }
            }
            if (g.nontrivial_ && !g.excluded_) {
                sh->nontrivial++;
                uint64_t h = g.haskey_
                                 ? g.khash_
                                 : fnv(sh->choices, sh->nchoices * sizeof(uint64_t), fi + 77);
                if (seen.insert(h).second) {
                    size_t n = seen.size();
                    // short ones, from all along the run
                    static const size_t FROM[] = {2, 20, 200};
                    if (samples.size() < 3 && n >= FROM[samples.size()] && g.notes_.size() < 3000)
                        samples.push_back(g.notes_);
                    if (n == 2) longer = g.notes_.substr(0, 3000) + "...";
                }
            }
        }
        arm(0);
        if (samples.empty() && !longer.empty()) samples.push_back(longer);
        std::ofstream out(hashfile, std::ios::binary);
        uint64_t n = seen.size();
        out.write((char*)&n, 8);
        for (auto h : seen) out.write((char*)&h, 8);
        for (auto& s : samples) {
            uint64_t l = s.size();
            out.write((char*)&l, 8);
            out.write(s.data(), l);
        }
        out.close();
        sh->state = IDLE;
        sh->finished = 1;
        rm_rf(scratch());
        _exit(0);
    }

    // true if no violation
    bool run_facet(int fi, double deadline) {
        Facet& f = Registry::get().facets[fi];
        uint64_t total = tier == "quick" ? f.quick : f.thorough;
        total = (uint64_t)(total * scale);
        if (!total) return true;
        unsigned nw = std::min<unsigned>(workers, Registry::get().max_workers);
        if (total < nw) nw = total;
        vector<Shared*> shm(nw);
        vector<pid_t> pids(nw);
        vector<int> done(nw, 0);
        fflush(stdout);
        for (unsigned w = 0; w < nw; ++w) {
            shm[w] = new_shared();
            pids[w] = fork();
            if (!pids[w]) {
                setpgid(0, 0);
                sh = shm[w];
                string err = scratch_root + "/stderr." + std::to_string(w);
                int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
                dup2(fd, 2);
                dup2(fd, 1);
                worker(w, nw, f, fi, total, seed, deadline,
                       scratch_root + "/hashes." + std::to_string(w));
            }
        }
        int failed = -1;
        uint64_t failed_idx = 0;
        Result fr;
        unsigned left = nw;
        vector<uint64_t> last(nw, 0);
        vector<double> lastt(nw, now());
        while (left) {
            int st;
            pid_t pid = waitpid(-1, &st, WNOHANG);
            if (pid <= 0) {
                usleep(2000);
                for (unsigned w = 0; w < nw; ++w) {
                    if (done[w]) continue;
                    uint64_t c = shm[w]->cases;
                    if (c != last[w]) {
                        last[w] = c;
                        lastt[w] = now();
                    } else if (now() - lastt[w] > 240) {
                        shm[w]->state = TIMEDOUT;
                        strcpy(shm[w]->msg, "the case blocked for 240 s");
                        kill(-pids[w], SIGKILL);
                        lastt[w] = now();
                    }
                }
                continue;
            }
            for (unsigned w = 0; w < nw; ++w) {
                if (pids[w] != pid || done[w]) continue;
                done[w] = 1;
                --left;
                if (!shm[w]->finished && failed < 0) {
                    failed = w;
                    Shared* s = shm[w];
                    failed_idx = s->index;
                    fr.state = FAILED;
                    fr.msg = s->msg;
                    fr.notes = s->notes;
                    fr.choices.assign(s->choices, s->choices + s->nchoices);
                    if (s->state == RUNNING)
                        fr.msg = "the process died: " + describe_death(st) + "\n" +
                                 tail_of(scratch_root + "/stderr." + std::to_string(w));
                    for (unsigned o = 0; o < nw; ++o)
                        if (!done[o]) kill(-pids[o], SIGKILL);
                }
                rm_rf(scratch_root + "/" + std::to_string(pid));
            }
        }
        for (unsigned w = 0; w < nw; ++w) {
            Shared* s = shm[w];
            stats.cases += s->cases;
            stats.facet_cases[f.name] += s->cases;
            stats.nontrivial += s->nontrivial;
            stats.discards += s->discards;
            stats.excluded += s->excluded;
            for (auto& c : s->cls)
                if (c.label[0]) stats.cls[f.name + ": " + c.label] += c.n;
            std::ifstream in(scratch_root + "/hashes." + std::to_string(w), std::ios::binary);
            uint64_t n = 0;
            if (in.read((char*)&n, 8)) {
                for (uint64_t i = 0; i < n; ++i) {
                    uint64_t h;
                    in.read((char*)&h, 8);
                    stats.distinct.insert(h);
                }
                uint64_t l;
                int taken = 0;
                while (in.read((char*)&l, 8) && l < 100000) {
                    string smp(l, 0);
                    in.read(&smp[0], l);
                    if (w < 2 && taken++ < 2) stats.samples.push_back("[" + f.name + "]\n" + smp);
                }
            }
            unlink((scratch_root + "/hashes." + std::to_string(w)).c_str());
            munmap(s, sizeof(Shared));
        }
        if (failed < 0) return true;
        printf("facet %s: a case failed, shrinking: %s\n", f.name.c_str(),
               fr.msg.substr(0, 300).c_str());
        fflush(stdout);
        return conclude(f, fr, fi, failed_idx, nw);
    }

    static uint64_t case_seed(uint64_t seed, int fi, uint64_t idx) {
        uint64_t s = seed * 0x9e3779b97f4a7c15ULL + fi * 0x1000193ULL;
        s = splitmix(s) ^ (idx * 0xd1342543de82ef95ULL);
        splitmix(s);
        return s;
    }

    // re-runs the cases from, from+step, ..., upto in one process
    Result sequence(const Facet& f, int fi, uint64_t sd, uint64_t from, uint64_t step,
                    uint64_t upto) {
        return in_child([&] {
            for (uint64_t i = from; i <= upto; i += step) {
                Gen g{case_seed(sd, fi, i)};
                if (!run_here(g, f)) return false;
            }
            return true;
        });
    }

    // a failure that needs state left behind by earlier cases of its process
    bool conclude_sequence(const Facet& f, int fi, uint64_t idx, uint64_t nw) {
        uint64_t back = 1, from = idx % nw;
        Result r;
        for (;; back *= 4) {
            uint64_t b = back * nw > idx ? idx % nw : idx - back * nw;
            r = sequence(f, fi, seed, b, nw, idx);
            from = b;
            if (r.state == FAILED || b == idx % nw) break;
        }
        if (r.state != FAILED) return true;
        printf("it fails after %llu earlier cases in the same process\n",
               (unsigned long long)((idx - from) / nw));
        r.notes = "sequence of generated cases in one process; the last one:\n" + r.notes;
        r.choices.clear();
        char spec[128];
        snprintf(spec, 128, "@sequence:%s:%llu:%llu:%llu:%llu", f.name.c_str(),
                 (unsigned long long)seed, (unsigned long long)from, (unsigned long long)nw,
                 (unsigned long long)idx);
        return !report(spec, r, [&] { return sequence(f, fi, seed, from, nw, idx); });
    }

    // confirms, shrinks and reports; true if it turned out not to be real
    bool conclude(const Facet& f, Result fr, int fi = -1, uint64_t idx = 0, uint64_t nw = 1) {
        Result first = replay(f, fr.choices, MANY);
        if (first.state != FAILED && fi >= 0 && !conclude_sequence(f, fi, idx, nw)) return false;
        if (first.state != FAILED) {
            // the failure may depend on state left by earlier cases in that
            // process; such a case is not a reproduction
            printf("facet %s: the failing case passes when replayed alone:\n%s\n%s\n",
                   f.name.c_str(), fr.msg.c_str(), fr.notes.c_str());
            unreproduced++;
            return true;
        }
        int tried = 0;
        Result small = shrink(f, first, tried);
        printf("shrunk from %zu to %zu choices in %d attempts\n", first.choices.size(),
               small.choices.size(), tried);
        if (Registry::get().tries > 1 && replay(f, small.choices, MANY).state != FAILED) small = first;
        return !report(f.name, small, [&] { return replay(f, small.choices, MANY); });
    }
    int unreproduced{0};

    bool is_listed(const string& name) {
        std::ifstream in(known);
        string line;
        string want = string("property=") + Registry::get().id + " ";
        while (std::getline(in, line)) {
            if (line.compare(0, 8, "finding:") != 0) continue;
            if (line.find(want) == string::npos) continue;
            if (line.find("case=" + name + " ") != string::npos) return true;
        }
        return false;
    }
    string listed_text(const string& name) {
        std::ifstream in(known);
        string line;
        while (std::getline(in, line)) {
            auto p = line.find("case=" + name + " ");
            if (line.compare(0, 8, "finding:") == 0 && p != string::npos &&
                line.find(string("property=") + Registry::get().id + " ") != string::npos)
                return line.substr(p);
        }
        return name;
    }

    bool run_examples() {
        bool ok = true;
        for (auto& e : Registry::get().examples) {
            auto run = [&]() -> Result {
                return in_child([&] {
                    Facet f{e.name, [&](Gen&) { e.fn(); }, 0, 0};
                    Gen g{vector<uint64_t>{}};
                    return run_here(g, f);
                });
            };
            Result r = run();
            stats.cases++;
            stats.facet_cases["examples"]++;
            if (e.known) {
                if (r.state == FAILED && is_listed(e.name)) {
                    printf("KNOWN-FINDING: property=%s %s\n", Registry::get().id,
                           listed_text(e.name).c_str());
                    continue;
                }
                if (r.state != FAILED) {
                    printf("note: known finding %s no longer reproduces\n", e.name.c_str());
                    continue;
                }
            }
            if (r.state == FAILED) {
                r.notes = "the pinned example " + e.name;
                if (report("example:" + e.name, r, run)) ok = false;
            }
        }
        return ok;
    }

    bool run_fuzzer() {
        if (fuzzbin.empty()) return true;
        for (size_t fi = 0; fi < Registry::get().facets.size(); ++fi) {
            Facet& f = Registry::get().facets[fi];
            uint64_t runs = (tier == "quick" ? f.quick / 4 : f.thorough / 2) * scale;
            unsigned nw = std::min<unsigned>(workers, Registry::get().max_workers);
            vector<pid_t> pids;
            for (unsigned w = 0; w < nw; ++w) {
                string dir = scratch_root + "/fuzz." + std::to_string(w);
                mkdir(dir.c_str(), 0700);
                mkdir((dir + "/corpus").c_str(), 0700);
                pid_t pid = fork();
                if (!pid) {
                    int fd = open((dir + "/log").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
                    dup2(fd, 2);
                    dup2(fd, 1);
                    setenv("PBT_FACET", f.name.c_str(), 1);
                    setenv("PBT_SCRATCH", dir.c_str(), 1);
                    setenv("PBT_FAIL_OUT", (dir + "/failed").c_str(), 1);
                    string a1 = "-seed=" + std::to_string((seed * 131 + w + 1) & 0x7fffffff);
                    string a2 = "-runs=" + std::to_string(runs / nw + 1);
                    string a3 = "-max_total_time=" + std::to_string(tier == "quick" ? 40 : 240);
                    string a4 = "-artifact_prefix=" + dir + "/";
                    execl(fuzzbin.c_str(), fuzzbin.c_str(), a1.c_str(), a2.c_str(), a3.c_str(),
                          a4.c_str(), "-max_len=2048", "-len_control=20", "-use_value_profile=1", "-timeout=60",
                          "-rss_limit_mb=3000", "-print_final_stats=1", "-verbosity=1",
                          (dir + "/corpus").c_str(), (char*)nullptr);
                    _exit(127);
                }
                pids.push_back(pid);
            }
            vector<uint64_t> bad;
            bool havebad = false;
            for (unsigned w = 0; w < nw; ++w) {
                int st;
                waitpid(pids[w], &st, 0);
                string dir = scratch_root + "/fuzz." + std::to_string(w);
                std::ifstream log(dir + "/log");
                string line;
                while (std::getline(log, line)) {
                    auto p = line.find("stat::number_of_executed_units:");
                    if (p != string::npos) {
                        uint64_t n = strtoull(line.c_str() + p + 31, nullptr, 10);
                        stats.cases += n;
                        stats.facet_cases[f.name + " (libFuzzer)"] += n;
                    }
                }
                std::ifstream in(dir + "/failed");
                uint64_t n;
                if (!havebad && (in >> n)) {
                    havebad = true;
                    bad.clear();
                    for (uint64_t i = 0; i < n; ++i) {
                        uint64_t v;
                        in >> v;
                        bad.push_back(v);
                    }
                }
                rm_rf(dir);
            }
            if (havebad) {
                Result r = replay(f, bad);
                if (r.state == FAILED && !conclude(f, r)) return false;
            }
        }
        return true;
    }

    void write_evidence(double wall, int violations) {
        if (evidence.empty()) return;
        auto& reg = Registry::get();
        std::ofstream o(evidence);
        o << "{\n \"property\": " << json(reg.id) << ",\n \"tier\": " << json(tier)
          << ",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n"
          << " \"coverage\": {\n  \"evaluations\": " << stats.cases
          << ",\n  \"distinct_nontrivial\": " << stats.distinct.size()
          << ",\n  \"nontrivial\": " << stats.nontrivial << ",\n  \"discarded\": " << stats.discards
          << ",\n  \"excluded_as_known_findings\": " << stats.excluded
          << ",\n  \"rule\": " << json(reg.rule) << ",\n  \"per_facet\": {";
        bool first = true;
        for (auto& p : stats.facet_cases) {
            o << (first ? "" : ", ") << json(p.first) << ": " << p.second;
            first = false;
        }
        o << "},\n  \"classes\": {";
        first = true;
        for (auto& p : stats.cls) {
            o << (first ? "" : ", ") << json(p.first) << ": " << p.second;
            first = false;
        }
        o << "},\n  \"samples\": [";
        first = true;
        for (auto& s : stats.samples) {
            if (!first) o << ",";
            first = false;
            o << "\n   " << json(s);
        }
        o << "]\n },\n \"assumptions\": [";
        first = true;
        for (auto& s : reg.assumptions) {
            o << (first ? "" : ", ") << json(s);
            first = false;
        }
        o << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
    }

    int do_replay(const string& path) {
        std::ifstream in(path);
        string line, facet;
        vector<uint64_t> ch;
        while (std::getline(in, line)) {
            if (line.compare(0, 6, "facet ") == 0) facet = line.substr(6);
            if (line.compare(0, 7, "choices") == 0) {
                std::istringstream is(line.substr(7));
                uint64_t v;
                while (is >> v) ch.push_back(v);
                break;
            }
        }
        Facet f;
        bool found = false;
        if (facet.compare(0, 10, "@sequence:") == 0) {
            for (auto& c : facet)
                if (c == ':') c = ' ';
            std::istringstream is(facet);
            string tag, name;
            uint64_t sd, from, nw, idx;
            is >> tag >> name >> sd >> from >> nw >> idx;
            auto& fs = Registry::get().facets;
            for (size_t i = 0; i < fs.size(); ++i) {
                if (fs[i].name != name) continue;
                Result r = sequence(fs[i], i, sd, from, nw, idx);
                printf("%s\n%s\n---- case\n%s\n", r.state == FAILED ? "FAILS" : "passes",
                       r.msg.c_str(), r.notes.c_str());
                if (r.state == FAILED)
                    printf("VIOLATION property=%s replay=%s\n", Registry::get().id, path.c_str());
                return r.state == FAILED ? 1 : 0;
            }
            return 2;
        }
        for (auto& x : Registry::get().facets)
            if (x.name == facet) {
                f = x;
                found = true;
            }
        for (auto& x : Registry::get().examples)
            if ("example:" + x.name == facet) {
                auto fn = x.fn;
                f = Facet{facet, [fn](Gen&) { fn(); }, 0, 0};
                found = true;
            }
        if (!found) {
            printf("no facet %s\n", facet.c_str());
            return 2;
        }
        Result r = replay(f, ch, MANY);
        printf("%s\n%s\n---- case\n%s\n", r.state == FAILED ? "FAILS" : "passes", r.msg.c_str(),
               r.notes.c_str());
        if (r.state == FAILED) {
            printf("VIOLATION property=%s replay=%s\n", Registry::get().id, path.c_str());
            return 1;
        }
        return 0;
    }

    int main(int argc, char** argv) {
        string replay_path, only;
        for (int i = 1; i < argc; ++i) {
            string a = argv[i];
            auto next = [&]() -> string { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--tier")
                tier = next();
            else if (a == "--seed")
                seed = strtoull(next().c_str(), nullptr, 10);
            else if (a == "--evidence")
                evidence = next();
            else if (a == "--replays")
                replays = next();
            else if (a == "--known")
                known = next();
            else if (a == "--replay")
                replay_path = next();
            else if (a == "--fuzzbin")
                fuzzbin = next();
            else if (a == "--workers")
                workers = atoi(next().c_str());
            else if (a == "--scale")
                scale = atof(next().c_str());
            else if (a == "--cap")
                cap = atof(next().c_str());
            else if (a == "--only")
                only = next();
        }
        const char* tmp = getenv("TMPDIR");
        string base = tmp && *tmp ? tmp : "/tmp";
        // rocksdb scratch stores are many and small: prefer a memory file system
        struct stat st;
        if (!stat("/dev/shm", &st) && !access("/dev/shm", W_OK)) base = "/dev/shm";
        string tpl = base + "/ronpbt.XXXXXX";
        if (!mkdtemp(&tpl[0])) {
            perror("mkdtemp");
            return 2;
        }
        scratch_root = tpl;
        sh = new_shared();
        double t0 = now();
        int rc = 0;
        if (!replay_path.empty()) {
            rc = do_replay(replay_path);
        } else {
            if (cap == 0) cap = tier == "quick" ? 300 : 700;
            double deadline = t0 + cap;
            bool ok = run_examples();
            auto& facets = Registry::get().facets;
            for (size_t i = 0; ok && i < facets.size(); ++i) {
                if (!only.empty() && facets[i].name != only) continue;
                // the time left is shared between the remaining facets
                double left = deadline - now();
                double share = left / (facets.size() - i);
                double f0 = now();
                int before = unreproduced;
                ok = run_facet(i, now() + std::max(5.0, share));
                // a failure that did not come again ends a run; so, once more
                for (uint64_t n = 1; ok && n < 4 && unreproduced > before && Registry::get().tries > 1 &&
                                     now() - f0 < share / 2; ++n) {
                    before = unreproduced;
                    seed += 1000000007ULL * n;
                    ok = run_facet(i, now() + std::max(5.0, share / 2));
                    seed -= 1000000007ULL * n;
                }
                printf("facet %s: %llu cases, %.1f s\n", facets[i].name.c_str(),
                       (unsigned long long)stats.facet_cases[facets[i].name], now() - f0);
                fflush(stdout);
            }
            if (ok) ok = run_fuzzer();
            rc = ok ? 0 : 1;
            double wall = now() - t0;
            write_evidence(wall, ok ? 0 : 1);
            printf("%s %s seed=%llu: %llu cases, %zu distinct non-trivial, %llu discarded, "
                   "%llu excluded, %.1f s: %s\n",
                   Registry::get().id, tier.c_str(), (unsigned long long)seed,
                   (unsigned long long)stats.cases, stats.distinct.size(),
                   (unsigned long long)stats.discards, (unsigned long long)stats.excluded, wall,
                   ok ? "held on everything explored" : "VIOLATED");
            if (getenv("PBT_CLASSES"))
                for (auto& c : stats.cls)
                    printf("  %-60s %llu\n", c.first.c_str(), (unsigned long long)c.second);
        }
        rm_rf(scratch_root);
        return rc;
    }

    // libFuzzer glue: one input
    static int fuzz_one(const uint8_t* data, size_t size) {
        static const Facet* f = nullptr;
        if (!f) {
            const char* n = getenv("PBT_FACET");
            for (auto& x : Registry::get().facets)
                if (!n || x.name == n) {
                    f = &x;
                    break;
                }
            const char* s = getenv("PBT_SCRATCH");
            scratch_root = s ? s : "/tmp";
            sh = new_shared();
            if (Registry::get().worker_init) Registry::get().worker_init();
        }
        Gen g{data, size};
        sh->nchoices = 0;
        sh->state = RUNNING;
        bool failed = false;
        try {
            f->fn(g);
        } catch (const Discard&) {
        } catch (const Failure& e) {
            failed = true;
        }
        if (failed) abort();
        sh->state = PASSED;
        return 0;
    }
    static void dump_failed() {
        const char* out = getenv("PBT_FAIL_OUT");
        if (!out || !sh || sh->state == PASSED) return;
        // async-signal context: plain writes
        int fd = open(out, O_CREAT | O_TRUNC | O_WRONLY, 0600);
        char b[32];
        int n = snprintf(b, 32, "%u\n", (unsigned)sh->nchoices);
        if (write(fd, b, n)) {
        }
        for (uint32_t i = 0; i < sh->nchoices; ++i) {
            n = snprintf(b, 32, "%llu\n", (unsigned long long)sh->choices[i]);
            if (write(fd, b, n)) {
            }
        }
        close(fd);
    }
};

}  // namespace pbt

#ifdef PBT_LIBFUZZER
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" int LLVMFuzzerInitialize(int*, char***) {
    return 0;
}
static void on_abort(int) {
    pbt::Engine::dump_failed();
    _exit(77);
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    static bool init = [] {
        __sanitizer_set_death_callback(pbt::Engine::dump_failed);
        signal(SIGABRT, on_abort);
        return true;
    }();
    (void)init;
    return pbt::Engine::fuzz_one(data, size);
}
#else
int main(int argc, char** argv) {
    pbt::Engine e;
    return e.main(argc, argv);
}
#endif

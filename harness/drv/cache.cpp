// Conformance driver for the in-memory cache (property C01): sequential histories, every pair of
// operations with the first one suspended at every point at which it calls back into the element
// or key type, and free-running random histories.
#include "Cache.hpp"
#include "vlog.hpp"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <set>
#include <thread>
#include <unistd.h>
using namespace vlog;

static std::mutex reg_mtx;
static std::set<void const *> alive;
static std::atomic<int> seq{0};

struct Pause {
    std::mutex m;
    std::condition_variable cv;
    int countdown = 0;
    bool paused = false, resume = false, fired = false;
};
static thread_local Pause *my_pause = nullptr;
static thread_local std::mt19937 *my_jitter = nullptr;

static void hook() {
    if (my_jitter && (*my_jitter)() % 4 == 0) {
        std::this_thread::sleep_for(std::chrono::microseconds((*my_jitter)() % 300));
    }
    Pause *p = my_pause;
    if (!p) return;
    std::unique_lock<std::mutex> l(p->m);
    if (p->fired || --p->countdown > 0) return;
    p->fired = p->paused = true;
    p->cv.notify_all();
    p->cv.wait(l, [&] { return p->resume; });
}
static void born(void const *x) {
    std::lock_guard<std::mutex> g(reg_mtx);
    alive.insert(x);
}
static void dies(void const *x) {
    std::lock_guard<std::mutex> g(reg_mtx);
    alive.erase(x);
}
static void used(void const *x, char const *what) {
    bool ok;
    {
        std::lock_guard<std::mutex> g(reg_mtx);
        ok = alive.count(x) != 0;
    }
    if (!ok) {
        emit(J("Dead").str("what", what));
        fflush(stdout);
        _exit(0); // what follows would be undefined behaviour
    }
}

struct Val {
    int v;
    explicit Val(int v) : v(v) { born(this); }
    Val(Val const &o) {
        used(&o, "copied element");
        v = o.v;
        hook();
        used(&o, "element while it was being copied");
        born(this);
    }
    Val &operator=(Val const &o) {
        used(&o, "assigned element");
        hook();
        v = o.v;
        return *this;
    }
    ~Val() {
        dies(this);
        hook();
    }
};
struct Key {
    int k;
    int cls; // hash class
    Key(int k, int cls) : k(k), cls(cls) { born(this); }
    Key(Key const &o) : k(o.k), cls(o.cls) {
        used(&o, "copied key");
        hook();
        born(this);
    }
    ~Key() { dies(this); }
    bool operator==(Key const &o) const {
        used(this, "compared key");
        used(&o, "compared key");
        hook();
        return k == o.k;
    }
};
struct Hash {
    size_t operator()(Key const &k) const {
        hook();
        return static_cast<size_t>(k.cls);
    }
};
using C = Cache<Key, Val, Hash>;
struct Op {
    char op;
    int k, v;
};

static void call(C &c, int t, Op o, int modulo) {
    std::string name = o.op == 's' ? "save" : o.op == 'r' ? "restore" : "clear";
    J j("Call");
    j.num("t", t).str("op", name);
    if (o.op != 'c') j.num("k", o.k);
    if (o.op == 's') j.str("v", std::to_string(o.v));
    emit(j);
    std::string r;
    try {
        if (o.op == 's') {
            Key k(o.k, o.k % modulo);
            Val v(o.v);
            c.save(k, v);
            r = "ok";
        } else if (o.op == 'r') {
            Key k(o.k, o.k % modulo);
            auto x = c.restore(k);
            r = x ? std::to_string(x->v) : "none";
        } else {
            c.clear();
            r = "ok";
        }
    } catch (std::runtime_error const &) {
        r = o.op == 's' ? "dup" : "error";
    } catch (std::exception const &e) {
        r = std::string("exception ") + e.what();
    }
    emit(J("Ret").num("t", t).str("r", r));
}

static int V() { return ++seq; }

// histories read from stdin (generated by TLC): lines "N", "s k", "r k", "c"
static void scripted(int modulo) {
    std::unique_ptr<C> c(new C);
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line == "N") {
            c.reset(new C);
            emit(J("Reset"));
            continue;
        }
        std::istringstream is(line);
        char o;
        int k = 0;
        is >> o >> k;
        call(*c, 0, {o, k, V()}, modulo);
    }
}

static void sequential(std::mt19937 &g, int rounds, int nkeys, int modulo, int len) {
    for (int r = 0; r < rounds; ++r) {
        emit(J("Reset"));
        C c;
        for (int i = 0; i < len; ++i) {
            int x = g() % 40;
            char op = x == 0 ? 'c' : x < 22 ? 's' : 'r';
            call(c, 0, {op, static_cast<int>(g() % nkeys), V()}, modulo);
        }
    }
}

static void forced(int wait_ms) {
    std::vector<Op> as{{'s', 0, 0}, {'r', 0, 0}, {'c', 0, 0}};
    std::vector<Op> bs{{'s', 0, 0}, {'s', 2, 0}, {'r', 0, 0}, {'r', 1, 0}, {'c', 0, 0}};
    for (int modulo : {1, 1000})
        for (int fill : {0, 1})
            for (auto a : as)
                for (auto b : bs)
                    for (int point = 1; point < 30; ++point) {
                        emit(J("Reset"));
                        auto c = std::make_shared<C>();
                        if (fill) {
                            call(*c, 0, {'s', 0, V()}, modulo);
                            call(*c, 0, {'s', 1, V()}, modulo);
                        }
                        Pause p;
                        p.countdown = point;
                        Op aa = a, bb = b;
                        aa.v = V();
                        bb.v = V();
                        std::atomic<bool> adone{false}, bdone{false};
                        std::thread ta([&] {
                            my_pause = &p;
                            call(*c, 1, aa, modulo);
                            my_pause = nullptr;
                            std::lock_guard<std::mutex> l(p.m);
                            adone = true;
                            p.cv.notify_all();
                        });
                        {
                            std::unique_lock<std::mutex> l(p.m);
                            p.cv.wait(l, [&] { return p.paused || adone.load(); });
                        }
                        bool fired = p.paused;
                        std::thread tb([&] {
                            call(*c, 2, bb, modulo);
                            bdone = true;
                        });
                        if (fired) {
                            for (int i = 0; i < wait_ms * 10 && !bdone; ++i)
                                std::this_thread::sleep_for(std::chrono::microseconds(100));
                            std::lock_guard<std::mutex> l(p.m);
                            p.resume = true;
                            p.cv.notify_all();
                        }
                        ta.join();
                        tb.join();
                        for (int k = 0; k < 3; ++k) call(*c, 0, {'r', k, 0}, modulo);
                        if (!fired) break;
                    }
}

static void random_threads(std::mt19937 &g, int rounds, int nthr, int nops) {
    for (int r = 0; r < rounds; ++r) {
        emit(J("Reset"));
        C c;
        int modulo = g() % 2 ? 1000 : 2;
        std::atomic<int> ready{0};
        std::vector<std::thread> ts;
        for (int t = 1; t <= nthr; ++t) {
            unsigned s = g();
            ts.emplace_back([&, t, s] {
                std::mt19937 h(s);
                my_jitter = &h;
                ++ready;
                while (ready < nthr) std::this_thread::yield();
                for (int i = 0; i < nops; ++i) {
                    int x = h() % 10;
                    call(c, t, {x < 4 ? 's' : x < 8 ? 'r' : 'c', static_cast<int>(h() % 3), V()},
                         modulo);
                }
                my_jitter = nullptr;
            });
        }
        for (auto &t : ts) t.join();
        for (int k = 0; k < 3; ++k) call(c, 0, {'r', k, 0}, modulo);
    }
}

int main(int argc, char **argv) {
    std::string mode = argv[1];
    std::mt19937 g(std::stoul(argv[2]));
    int n = std::stoi(argv[3]);
    if (mode == "script") {
        scripted(n);
    } else if (mode == "seq") {
        sequential(g, n, 60, 7, 400);
        sequential(g, n, 60, 1000, 400);
        sequential(g, n, 5, 1, 60);
    } else if (mode == "forced") {
        forced(n);
    } else {
        random_threads(g, n, 3, 5);
    }
    fflush(stdout);
    _exit(0);
}

// A stand-in for the OpenMP runtime that executes parallel loops according to given schedules. Threads are real, but
// only one of them runs at a time; control is passed on when a thread asks for an iteration of a loop, and again before
// it executes the iteration. A schedule is a sequence of thread indices, followed by pseudo-random choices.
#include <condition_variable>
#include <cstdlib>
#include <mutex>
#include <thread>
#include <vector>

namespace {
    std::vector<std::vector<int>> schedules;
    unsigned long long rngState = 1;
    int free_running = 0;
    long regions = 0, switches = 0;
    unsigned maxTeam = 0;

    struct Team {
        std::mutex m;
        std::condition_variable cv;
        unsigned n;
        std::vector<char> alive;
        std::vector<int> choices;
        size_t pos = 0;
        int turn = -1;
        long next = 0, end = 0, incr = 1, chunk = 1;
        bool loopSet = false;
        std::mutex loop;
    };

    thread_local Team* team = nullptr;
    thread_local unsigned tid = 0;
    thread_local bool inner = false;

    unsigned rnd() {
        rngState = rngState * 6364136223846793005ULL + 1442695040888963407ULL;
        return (unsigned) (rngState >> 33);
    }

    void pick(Team& t) {
        int live = 0;
        for (char a : t.alive) live += a;
        if (!live) { t.turn = -1; return; }
        while (t.pos < t.choices.size()) {
            int c = t.choices[t.pos++];
            if (c < (int) t.n && t.alive[c]) { t.turn = c; return; }
        }
        int k = rnd() % live;
        for (unsigned i = 0; i < t.n; i++) {
            if (t.alive[i] && k-- == 0) { t.turn = i; return; }
        }
    }

    void yield() {
        if (!team || free_running) return;
        std::unique_lock<std::mutex> l(team->m);
        switches++;
        pick(*team);
        team->cv.notify_all();
        team->cv.wait(l, [] { return team->turn == (int) tid; });
    }

    void worker(Team* t, unsigned id, void (*fn)(void*), void* data) {
        Team* oldTeam = team;
        unsigned oldTid = tid;
        team = t;
        tid = id;
        if (!free_running) {
            std::unique_lock<std::mutex> l(t->m);
            t->cv.wait(l, [&] { return t->turn == (int) id; });
        }
        fn(data);
        {
            std::unique_lock<std::mutex> l(t->m);
            t->alive[id] = 0;
            if (!free_running) pick(*t);
            t->cv.notify_all();
        }
        team = oldTeam;
        tid = oldTid;
    }

    bool take(long* istart, long* iend) {
        yield();
        std::lock_guard<std::mutex> l(team->loop);
        bool more = team->incr > 0 ? team->next < team->end : team->next > team->end;
        if (!more) return false;
        *istart = team->next;
        long last = team->next + team->chunk * team->incr;
        if (team->incr > 0 ? last > team->end : last < team->end) last = team->end;
        *iend = last;
        team->next = last;
        return true;
    }
}

extern "C" {
    void verif_schedule(const int* flat, const int* lengths, int num, unsigned long long seed, int isFree) {
        schedules.clear();
        for (int i = 0; i < num; i++) {
            schedules.emplace_back(flat, flat + lengths[i]);
            flat += lengths[i];
        }
        rngState = seed * 2862933555777941757ULL + 3037000493ULL;
        free_running = isFree;
        regions = switches = 0;
        maxTeam = 0;
    }

    void verif_stats(long* out) { out[0] = regions; out[1] = switches; out[2] = maxTeam; }

    void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
        if (n == 0) n = 1;
        if (team) n = 1;  // no nested parallelism
        Team t;
        t.n = n;
        t.alive.assign(n, 1);
        if (!schedules.empty()) t.choices = schedules[regions % schedules.size()];
        regions++;
        if (n > maxTeam) maxTeam = n;
        std::vector<std::thread> threads;
        for (unsigned i = 1; i < n; i++) threads.emplace_back(worker, &t, i, fn, data);
        if (!free_running) {
            std::unique_lock<std::mutex> l(t.m);
            pick(t);
            t.cv.notify_all();
        }
        worker(&t, 0, fn, data);
        for (auto& th : threads) th.join();
    }

    bool GOMP_loop_nonmonotonic_dynamic_start(long start, long end, long incr, long chunk, long* is, long* ie) {
        if (!team) { *is = start; *ie = end; return incr > 0 ? start < end : start > end; }
        {
            std::lock_guard<std::mutex> l(team->loop);
            if (!team->loopSet) {
                team->next = start;
                team->end = end;
                team->incr = incr;
                team->chunk = chunk;
                team->loopSet = true;
            }
        }
        if (!take(is, ie)) return false;
        yield();
        return true;
    }
    bool GOMP_loop_nonmonotonic_dynamic_next(long* is, long* ie) {
        if (!team || !take(is, ie)) return false;
        yield();
        return true;
    }
    bool GOMP_loop_dynamic_start(long a, long b, long c, long d, long* is, long* ie) {
        return GOMP_loop_nonmonotonic_dynamic_start(a, b, c, d, is, ie);
    }
    bool GOMP_loop_dynamic_next(long* is, long* ie) { return GOMP_loop_nonmonotonic_dynamic_next(is, ie); }
    bool GOMP_loop_nonmonotonic_guided_start(long a, long b, long c, long d, long* is, long* ie) {
        return GOMP_loop_nonmonotonic_dynamic_start(a, b, c, d, is, ie);
    }
    bool GOMP_loop_nonmonotonic_guided_next(long* is, long* ie) { return GOMP_loop_nonmonotonic_dynamic_next(is, ie); }
    bool GOMP_loop_guided_start(long a, long b, long c, long d, long* is, long* ie) {
        return GOMP_loop_nonmonotonic_dynamic_start(a, b, c, d, is, ie);
    }
    bool GOMP_loop_guided_next(long* is, long* ie) { return GOMP_loop_nonmonotonic_dynamic_next(is, ie); }
    void GOMP_loop_end_nowait() {}
    void GOMP_loop_end() {}
    int omp_get_thread_num() { return (int) tid; }
    int omp_get_num_threads() { return team ? (int) team->n : 1; }
    int omp_in_parallel() { return team != nullptr; }

    static std::recursive_mutex critical;
    void GOMP_critical_start() { critical.lock(); }
    void GOMP_critical_end() { critical.unlock(); }
    void GOMP_critical_name_start(void**) { critical.lock(); }
    void GOMP_critical_name_end(void**) { critical.unlock(); }
    void GOMP_atomic_start() { critical.lock(); }
    void GOMP_atomic_end() { critical.unlock(); }
}

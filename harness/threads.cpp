// Concurrent, independent applications under ThreadSanitizer: every thread owns its objects.
// Usage: threads SEED ROUNDS NTHREADS OUT.json
#define VH_THREADS 1
#include <pthread.h>
#include <atomic>
#include "run.hpp"
static std::atomic<uint64_t> g_done{0}, g_bytes{0}, g_max{0}, g_now{0}, g_overlaps{0};
static std::atomic<int> g_bad{0};
static pthread_barrier_t g_barrier;
struct Arg { uint64_t seed; int rounds, id; uint64_t hash; };
static void *worker(void *p) {
    Arg *a = (Arg *)p;
    uint64_t shared = mix(a->seed, 12345);
    for (int i = 0; i < a->rounds; i++) {
        // Half of the rounds all threads apply the very same patch, to meet in the same code.
        Rng r(i % 2 ? mix(shared, (uint64_t)i) : mix(mix(a->seed, (uint64_t)a->id), (uint64_t)i));
        int comp = C_COMPS[r.below(4)];
        bool inplace = r.chance(1, 2);
        pthread_barrier_wait(&g_barrier);
        uint64_t now = ++g_now;
        if (now > 1) g_overlaps++;
        uint64_t m = g_max.load();
        while (now > m && !g_max.compare_exchange_weak(m, now)) {}
        const char *bad = nullptr;
        Outcome o;
        size_t want;
        if (inplace) {
            InpCase k; gen_inp(r, k, comp, 6000, 10);
            InpIo io; io.init(k.memory, k.from, r);
            int style = (int)r.below(N_FEED);
            o = style == N_FEED - 1 ? run_inp_cb(io, k.patch, true) : run_inp(io, k.patch, gen_chunks(r, k.patch.size(), style), k.patch.size(), true);
            want = k.to_size; bad = io.bad;
            if (!bad && o.ok() && want && memcmp(io.mem.data(), k.to.data(), want)) bad = "wrong output";
            g_bytes += want; a->hash = mix(a->hash, fnv(k.patch));
        } else {
            SeqCase s; gen_seq(r, s, comp, 6000);
            SeqIo io; io.from = &s.from; io.expect = &s.to;
            int style = (int)r.below(N_FEED);
            o = style == N_FEED - 1 ? run_seq_cb(io, s.patch) : run_seq(io, s.patch, gen_chunks(r, s.patch.size(), style), s.patch.size());
            want = s.to.size(); bad = io.bad;
            if (!bad && o.ok() && io.out != s.to) bad = "wrong output";
            g_bytes += want; a->hash = mix(a->hash, fnv(s.patch));
        }
        if (!bad && (!o.ok() || (size_t)o.final != want)) bad = "valid patch rejected";
        (void)detools_error_as_string(-(int)r.below(30));
        if (bad && g_bad++ < 3) { printf("FAIL\tconcurrent\t%d\t%s %s in thread %d round %d: %s (%d)\n", i, inplace ? "in-place" : "sequential", comp_name(comp), a->id, i, bad, o.code()); fflush(stdout); }
        --g_now;
        g_done++;
    }
    return nullptr;
}
int main(int argc, char **argv) {
    if (argc < 5) return 3;
    uint64_t seed = strtoull(argv[1], 0, 10);
    int rounds = atoi(argv[2]), n = atoi(argv[3]);
    alarm(600);
    std::vector<pthread_t> t((size_t)n);
    std::vector<Arg> a((size_t)n);
    pthread_barrier_init(&g_barrier, nullptr, (unsigned)n);
    for (int i = 0; i < n; i++) { a[(size_t)i] = Arg{seed, rounds, i, 0}; if (pthread_create(&t[(size_t)i], nullptr, worker, &a[(size_t)i])) return 3; }
    for (int i = 0; i < n; i++) pthread_join(t[(size_t)i], nullptr);
    FILE *f = fopen(argv[4], "w");
    if (!f) return 3;
    fprintf(f, "{\"applications\": %llu, \"max_concurrent\": %llu, \"started_while_another_ran\": %llu, \"bytes\": %llu, \"hashes\": [", (unsigned long long)g_done, (unsigned long long)g_max, (unsigned long long)g_overlaps, (unsigned long long)g_bytes);
    for (int i = 0; i < n; i++) fprintf(f, "%s\"%016llx\"", i ? ", " : "", (unsigned long long)a[(size_t)i].hash);
    fprintf(f, "]}\n");
    fclose(f);
    return 0;
}

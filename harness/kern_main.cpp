#include "kern.hpp"
#include <omp.h>
#ifdef VERIF_SCHED
#include "sched/sched.hpp"
#endif
std::map<std::string, Call<real>>& kernels()
{
    static std::map<std::string, Call<real>> k;
    return k;
}
static void fail(const std::string& s)
{
    std::cerr << "protocol: " << s << "\n";
    exit(3);
}
int main()
{
    std::string tok;
    long launches = 0, points = 0;
    while (std::cin >> tok) {
        if (tok != "C") fail(tok);
        std::string id;
        int threads, na, ne;
        std::cin >> id >> threads;
        omp_set_num_threads(threads);
#ifdef VERIF_SCHED
        verif::sched() = verif::Sched();
        verif::sched().read(std::cin);
#endif
        World<real> w;
        std::cin >> na;
        std::vector<std::string> names;
        for (int q = 0; q < na; q++) {
            std::string nm;
            int m;
            std::cin >> nm >> m;
            names.push_back(nm);
            w.arr[nm].alloc(m);
        }
        auto load = [&](const std::string& nm) {
            auto& a = w.arr.at(nm);
            for (int q = 0; q < a.n; q++) {
                double d;
                std::cin >> d;
                a.data()[q] = static_cast<real>(d);
            }
        };
        for (auto& n : names) load(n);
        std::cin >> ne;
        printf("T %s\n", id.c_str());
        for (int e = 0; e < ne; e++) {
            std::string fn;
            std::cin >> fn;
            for (auto& n : names) w.arr[n].prev = w.arr[n].buf;
            if (fn == "load") {
                std::string nm;
                std::cin >> nm;
                load(nm);
            } else {
                auto k = kernels().find(fn);
                if (k == kernels().end()) fail("no kernel " + fn);
                k->second(w, std::cin);
            }
            if (!std::cin) fail("input");
            std::cin >> tok;
            if (tok != ";") fail("arguments of " + fn);
            bool ok = true;
            for (auto& n : names) ok = ok && w.arr[n].intact();
            printf("P %d", ok ? 1 : 0);
            for (auto& n : names) {
                auto& a = w.arr[n];
                bool head = false;
                for (int q = 0; q < a.n; q++)
                    if (std::memcmp(&a.prev[a.G + q], &a.buf[a.G + q], sizeof(real))) {
                        if (!head) printf(" %s", n.c_str());
                        head = true;
                        printf(" %d %.17g", q, static_cast<double>(a.data()[q]));
                    }
            }
            printf("\n");
            fflush(stdout);
        }
#ifdef VERIF_SCHED
        launches += verif::sched().launches;
        points += verif::sched().writes;
#endif
    }
#ifdef VERIF_SCHED
    printf("S %ld %ld\n", launches, points);
#endif
    printf("DONE\n");
}

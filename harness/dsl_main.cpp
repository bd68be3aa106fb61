// Reads cases, runs the named program statements, prints every array after each.
#include "dsl.hpp"
#include <omp.h>
#ifdef VERIF_SCHED
#include "sched/sched.hpp"
#endif

std::map<std::string, Fn>& registry()
{
    static std::map<std::string, Fn> r;
    return r;
}
static void fail(const std::string& s)
{
    std::cerr << "protocol: " << s << "\n";
    exit(3);
}
int main()
{
    std::string tok;
#ifdef VERIF_SCHED
    long launches = 0, points = 0;
#endif
    while (std::cin >> tok) {
        if (tok != "C") fail(tok);
        std::string id;
        int threads, ns, nt, na, ne;
        std::cin >> id >> threads;
        omp_set_num_threads(threads);
#ifdef VERIF_SCHED
        verif::sched() = verif::Sched();
        verif::sched().read(std::cin);
#endif
        Case<real> c;
        std::cin >> ns;
        c.s.resize(ns);
        for (auto& x : c.s) {
            double d;
            std::cin >> d;
            x = static_cast<real>(d);
        }
        std::cin >> nt;
        c.tabs.resize(nt);
        for (auto& t : c.tabs) {
            int m;
            std::cin >> m;
            t.resize(m);
            for (int& x : t) std::cin >> x;
        }
        std::cin >> na;
        std::vector<std::string> names;
        for (int q = 0; q < na; q++) {
            std::string nm;
            int nd, m;
            std::cin >> nm;
            auto& a = c.arr[nm];
            names.push_back(nm);
            std::cin >> a.gcw >> nd;
            for (int d = 0; d < nd; d++) {
                int ax;
                std::cin >> ax;
                std::cin >> a.lo[ax] >> a.hi[ax] >> a.st[ax];
            }
            std::cin >> m;
            a.alloc(m);
            for (int d = 0; d < m; d++) {
                double v;
                std::cin >> v;
                a.data()[d] = static_cast<real>(v);
            }
        }
        std::cin >> ne;
        printf("T %s\n", id.c_str());
        for (int e = 0; e < ne; e++) {
            std::string fn;
            int nd;
            std::cin >> fn >> nd;
            for (int d = 0; d < nd; d++) {
                int ax;
                std::cin >> ax;
                std::cin >> c.lo[ax] >> c.hi[ax] >> c.st[ax];
            }
            std::cin >> c.ratio >> c.at[0] >> c.at[1] >> c.at[2];
            if (!std::cin) fail("input");
            auto f = registry().find(fn);
            if (f == registry().end()) fail("no function " + fn);
            f->second(c);
            bool ok = true;
            for (auto& n : names) ok = ok && c.arr[n].intact();
            printf("P %d", ok ? 1 : 0);
            for (auto& n : names) {
                auto& a = c.arr[n];
                printf(" %s", n.c_str());
                for (int q = 0; q < a.n; q++) printf(" %.17g", static_cast<double>(a.data()[q]));
            }
            printf("\n");
            fflush(stdout);
        }
#ifdef VERIF_SCHED
        launches += verif::sched().launches;
        points += verif::sched().writes;
#endif
    }
#ifdef VERIF_SCHED
    printf("S %ld %ld\n", launches, points);
#endif
    printf("DONE\n");
}

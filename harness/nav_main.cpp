#include "nav.hpp"
std::vector<std::vector<Walk>> walk_lists;
int current_list = 0;
std::map<std::string, ViewFn>& registry()
{
    static std::map<std::string, ViewFn> r;
    return r;
}
// argv[1]: lists of walks   stdin: "<id> <view kind> <list> <n> <params...>" per line
int main(int argc, char** argv)
{
    std::ifstream wf(argv[1]);
    int c;
    while (wf >> c) {
        walk_lists.emplace_back();
        auto& v = walk_lists.back();
        for (int i = 0; i < c; i++) {
            int len;
            wf >> len;
            Walk w;
            for (int j = 0; j < len; j++) {
                int a, b;
                wf >> a >> b;
                w.ops.push_back({a, b});
            }
            v.push_back(w);
        }
    }
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream s(line);
        std::string id, kind;
        int n;
        s >> id >> kind >> current_list >> n;
        ints p;
        int x;
        while (s >> x) p.push_back(x);
        auto f = registry().find(kind);
        if (f == registry().end()) {
            std::fprintf(stderr, "unknown view %s\n", kind.c_str());
            return 3;
        }
        f->second(id.c_str(), n, Reader{p});
        std::fflush(stdout);
    }
    std::printf("DONE\n");
    return 0;
}

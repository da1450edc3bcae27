#include "h.h"
Report R;
static FILE *real_out;
void prop_C12(); void prop_C15(); void prop_C13(); void prop_C14(); void prop_C01(); void prop_C02(); void prop_C03(); void prop_C07(); void prop_C04(); void prop_C05(); void prop_C06(); void prop_C08(); void prop_C09(); void prop_C10(); void prop_C11(); void prop_C16(); void prop_C18(); void prop_C20(); void prop_C19();
int main(int argc, char **argv) {
    if (argc < 2) return 2;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--thorough") R.thorough = true;
        else if (a == "--seed") R.seed = atoi(argv[++i]);
        else if (a == "--only") R.only = argv[++i];
    }
    std::map<std::string, void (*)()> T = { {"C01", prop_C01}, {"C02", prop_C02}, {"C03", prop_C03}, {"C04", prop_C04}, {"C05", prop_C05}, {"C06", prop_C06}, {"C07", prop_C07}, {"C08", prop_C08}, {"C09", prop_C09}, {"C10", prop_C10}, {"C11", prop_C11}, {"C12", prop_C12}, {"C13", prop_C13}, {"C14", prop_C14}, {"C15", prop_C15}, {"C16", prop_C16}, {"C18", prop_C18}, {"C20", prop_C20}, {"C19", prop_C19} };
    R.prop = argv[1];
    if (R.prop == "--list") { for (auto &k : T) printf("%s\n", k.first.c_str()); return 0; }
    auto it = T.find(R.prop); if (it == T.end()) { fprintf(stderr, "unknown property\n"); return 2; }
    R.out = fdopen(dup(1), "w");
    { FILE *f = freopen("/dev/null", "w", stdout); (void)f; }
    it->second();
    for (auto &k : R.groups) fprintf(R.out, "GROUP %s %ld\n", k.first.c_str(), k.second);
    fprintf(R.out, "CHECKS %ld FAILS %ld\n", R.checks, R.fails);
    fflush(R.out);
    _exit(R.fails ? 1 : 0);
}

// C24: the locale's charset name.  lib/locale_charset.c is compiled for several kinds of platform (its platform
// header is not here, so src/stub stands in and -D chooses); every environment in the bound is set up for real.
#include "ident.hpp"
#include <cppp/reiconv.hpp>
#include <fstream>
#include <langinfo.h>
#include <locale.h>
using namespace ve;
extern "C" { const char *lc_linux(); const char *lc_generic(); const char *lc_freebsd(); const char *lc_freebsd_langinfo(); const char *lc_android(); const char *lc_windows(); const char *lc_console(); const char *lc_cygwin(); const char *locale_charset(); }
static std::string cur = "C", codeset = "ANSI_X3.4-1968"; static unsigned acp = 1252, ocp = 437; static bool changed;
extern "C" {
char *__wrap_setlocale(int, const char *v) { if (v) changed = true; static char b[4096]; snprintf(b, sizeof b, "%s", cur.c_str()); return b; }
char *__wrap_nl_langinfo(nl_item i) { static char b[4096]; snprintf(b, sizeof b, "%s", i == CODESET ? codeset.c_str() : "?"); return b; }
unsigned GetACP(void) { return acp; }
unsigned GetConsoleOutputCP(void) { return ocp; }
}
struct Val { bool set; std::string v; };
static void env(const char *n, const Val &v) { if (v.set) setenv(n, v.v.c_str(), 1); else unsetenv(n); }
static std::map<std::string, std::string> table; static std::map<unsigned, std::string> win, unsup;
static const char *call(const char *(*f)()) { g_calls = g_calls + 1; LibScope s; return f(); }
static int idx(const char *n) { return n ? reiconv_lookup_from_name(n) : -1; }
static void posix(const Val &a, const Val &b, const Val &c, const std::string &d, bool openable) {
    env("LC_ALL", a); env("LC_CTYPE", b); env("LANG", c); cur = d; std::string in = a.set && !a.v.empty() ? a.v : b.set && !b.v.empty() ? b.v : c.set && !c.v.empty() ? c.v : d;
    auto say = [](const Val &v) { return v.set ? "\"" + v.v.substr(0, 60) + "\"" : std::string("unset"); };
    std::string where = "LC_ALL=" + say(a) + " LC_CTYPE=" + say(b) + " LANG=" + say(c) + " current locale \"" + d.substr(0, 60) + "\"";
    for (int k = 0; k < 2; k++) {
        std::string want; bool known = true; if (k && table.count(in)) want = table[in]; else { size_t p = in.find('.'); want = p == std::string::npos ? "UTF-8" : in.substr(p + 1); known = openable; }
        const char *got = call(k ? lc_freebsd : lc_generic); c_trans++; if (want != "UTF-8") c_nontriv++;
        if (!got || want != got) violation(fmt("%s:%s", k ? "table" : "plain", in.c_str()), fmt("%s: locale_charset() gives %s, expected %s", where.c_str(), got ? got : "NULL", want.c_str()));
        else if (known && idx(got) < 0) violation(fmt("open:%s", got), fmt("%s: locale_charset() gives %s, which cannot be opened", where.c_str(), got));
    }
    if (changed) violation("setlocale", where + ": the locale is changed");
}
int main(int argc, char **argv) {
    return ve_main(argc, argv, [] {
        std::ifstream f(opt.specdir + "/locales.txt"); std::string k, a, b; while (f >> k >> a >> b) { if (k == "L") table[a] = b; if (k == "W") win[std::stoul(a)] = b; if (k == "U") unsup[std::stoul(a)] = b; }
        g_crumb = {"", "", 0, 0, 0, "locale_charset", ""};
        std::vector<std::string> loc{"C", "POSIX", "en_US", "de_DE", "zh_TW", "x", "LC_ALL", "en_US.UTF-8", "de_DE.ISO-8859-1", "ja_JP.eucJP", "zh_CN.GB18030", "ru_RU.KOI8-R", ".UTF-8", "C.UTF-8"}; std::vector<bool> ok(loc.size(), true); ok[9] = true;
        for (auto &t : table) for (auto &s : std::vector<std::string>{t.first, t.first + "x", t.first.substr(0, t.first.size() - 1), lower(t.first), t.first.substr(1), t.first.substr(0, t.first.find('.'))}) { loc.push_back(s); ok.push_back(false); }
        for (auto &n : spec().names.of) { loc.push_back("xx_YY." + n.first); ok.push_back(reiconv_lookup_from_name(n.first.c_str()) >= 0); }
        for (size_t n : {17, 18, 19, 100, 3000}) { loc.push_back(std::string(n, 'a')); ok.push_back(true); loc.push_back(std::string(n, 'a') + ".UTF-8"); ok.push_back(true); }
        std::vector<Val> none{{false, ""}, {true, ""}}, any{{false, ""}, {true, ""}, {true, "C"}, {true, "ja_JP.SJIS"}, {true, "fr_FR.IBM850"}};
        pool(loc.size() + 3, [&](size_t i) {
            c_states++;
            if (i < loc.size()) {   // this locale in each of the four places, everything before it unset or empty, everything behind it anything
                Val v{true, loc[i]};
                for (auto &y : any) for (auto &z : any) for (auto &w : any) posix(v, y, z, w.v.empty() ? "C" : w.v, ok[i]);
                for (auto &x : none) for (auto &z : any) for (auto &w : any) posix(x, v, z, w.v.empty() ? "C" : w.v, ok[i]);
                for (auto &x : none) for (auto &y : none) for (auto &w : any) posix(x, y, v, w.v.empty() ? "C" : w.v, ok[i]);
                for (auto &x : none) for (auto &y : none) for (auto &z : none) posix(x, y, z, loc[i], ok[i]);
            } else if (i == loc.size()) {   // where the system reports the codeset, that is the answer, whatever the environment says
                std::vector<std::string> sets; for (auto &n : spec().names.of) sets.push_back(n.first); for (const char *s : {"ANSI_X3.4-1968", "UTF-8", "ISO-8859-15", "EUC-JP", "KOI8-U", "BIG5-HKSCS", "TCVN5712-1", "", "UNKNOWN"}) sets.push_back(s);
                for (auto &s : sets) for (auto &e : any) { codeset = s; env("LC_ALL", e); env("LANG", e); cur = e.v;
                    for (auto fn : {lc_linux, lc_freebsd_langinfo, locale_charset}) { const char *g = call(fn); c_trans++; if (!g || s != g) violation("langinfo:" + s, fmt("nl_langinfo reports %s, locale_charset() gives %s", s.c_str(), g ? g : "NULL")); }
                    auto v = reiconv::locale_charset(); c_trans++; if (std::string(v) != s) violation("cpp:" + s, fmt("nl_langinfo reports %s, reiconv::locale_charset() gives %s", s.c_str(), std::string(v).c_str())); }
            } else if (i == loc.size() + 1) { for (auto &e : any) { env("LC_ALL", e); env("LANG", e); const char *g = call(lc_android); c_trans++; if (idx(g) != idx("UTF-8")) violation("android", fmt("a system that has only UTF-8: %s", g ? g : "NULL")); } }
            else {   // Windows: every code page; supported ones must be named so that the library opens that code page
                for (unsigned cp = 0; cp < 70000; cp++) for (int how = 0; how < 3; how++) {
                    acp = how == 1 ? 1252 : cp; ocp = how == 1 ? cp : 437; const char *g = call(how == 1 ? lc_console : how == 2 ? lc_cygwin : lc_windows); c_trans++; std::string key = fmt("windows:%u", cp);
                    if (!g) { violation(key, fmt("code page %u: NULL", cp)); continue; } if (unsup.count(cp)) continue; c_nontriv++;
                    int x = idx(g), byname = win.count(cp) ? idx(win[cp].c_str()) : -1, bycp = reiconv_lookup_from_codepage(cp);
                    if (x < 0) violation(key, fmt("code page %u is reported as %s, which cannot be opened", cp, g));
                    else if (win.count(cp) && byname >= 0 && x != byname) violation(key, fmt("code page %u is reported as %s, which is not %s", cp, g, win[cp].c_str()));
                    else if (win.count(cp) && bycp >= 0 && x != bycp) violation(key, fmt("code page %u is reported as %s, which is not the encoding of that code page", cp, g));
                }
            }
        });
        sample(fmt("%zu locales in four places, %zu table entries, %zu + %zu Windows code pages", loc.size(), table.size(), win.size(), unsup.size()));
    });
}

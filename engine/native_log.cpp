// Keeps log messages (or silences them) in native replays.
#include <cctype>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
extern bool g_in_track;
struct Arg { bool str; std::string s; double d; };
static bool g_on = false;
static std::vector<std::vector<Arg> > g_log;
extern "C" {
void sdp_log_message(int, void*, const char*, const char*, int, const char* f, ...)
{
    if (!g_on) return;
    const bool old = g_in_track;
    g_in_track = true;
    std::vector<Arg>* r = new std::vector<Arg>; // kept until the end
    std::vector<Arg>& rec = *r;
    va_list ap;
    va_start(ap, f);
    for (; *f; ++f)
    {
        if (*f != '%') continue;
        ++f;
        int lng = 0;
        while (isdigit(*f) || strchr("-.lzh+", *f)) { if (*f == 'l' || *f == 'z') ++lng; ++f; }
        if (*f == '%') continue;
        Arg a; a.str = false; a.d = 0;
        if (*f == 's') { a.str = true; a.s = va_arg(ap, const char*); }
        else if (*f == 'f' || *f == 'g' || *f == 'e') a.d = va_arg(ap, double);
        else if (lng) (void) va_arg(ap, long);
        else if (*f == 'p') (void) va_arg(ap, void*);
        else (void) va_arg(ap, int);
        rec.push_back(a);
    }
    va_end(ap);
    g_log.push_back(rec);
    g_in_track = old;
}
void sym_log_start(void) { g_on = true; g_log.clear(); }
int sym_log_count(void) { return (int) g_log.size(); }
int sym_log_args(int r) { return (int) g_log.at((size_t) r).size(); }
int sym_log_len(int r, int k) { const Arg& a = g_log.at((size_t) r).at((size_t) k); return a.str ? (int) a.s.size() : -1; }
int sym_log_char(int r, int k, int i) { const Arg& a = g_log.at((size_t) r).at((size_t) k); return i < (int) a.s.size() ? (unsigned char) a.s[(size_t) i] : 0; }
double sym_log_double(int r, int k) { return g_log.at((size_t) r).at((size_t) k).d; }
}

// C35: timers keep their hierarchy and their times; sky coordinates keep their values.
#include <sys/time.h>
#include <time.h>
#include "common.h"
#include "ska-sdp-func/utility/sdp_sky_coord.h"
#include "ska-sdp-func/utility/sdp_timer.h"
// The clock stands still except when the harness lets some time pass.
static int g_now = 0;
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { tv->tv_sec = g_now; tv->tv_usec = 0; return 0; }
extern "C" int clock_gettime(clockid_t, struct timespec* ts) noexcept { ts->tv_sec = g_now; ts->tv_nsec = 0; return 0; }
static void tick(int lo) { g_now += sym_int("tick", lo, 1000); }

// Reference: a tree of named nodes, each with one or more slots.
struct Ref { int parent; const char* name; int slots; double elapsed[3]; int start[3]; bool running[3]; sdp_TimerNode* node; };
static Ref g[24];
static int ng;
static int ref_new(int parent, const char* name, int slots)
{
    Ref& r = g[ng];
    r.parent = parent; r.name = name; r.slots = slots; r.node = 0;
    for (int i = 0; i < 3; ++i) { r.elapsed[i] = 0; r.start[i] = 0; r.running[i] = false; }
    return ng++;
}
static bool eq(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return *a == *b; }
static int ref_child(int parent, const char* name)
{
    for (int i = 0; i < ng; ++i) if (g[i].parent == parent && eq(g[i].name, name)) return i;
    return -1;
}
static void ref_push(int& cur, const char* name, int idx)
{
    int k = ref_child(cur, name);
    if (k < 0) k = ref_new(cur, name, 1);
    if (!g[k].running[idx]) { g[k].running[idx] = true; g[k].start[idx] = g_now; }
    cur = k;
}
static void ref_pop(int& cur, int idx)
{
    if (cur == 0) return;
    if (g[cur].running[idx]) { g[cur].elapsed[idx] += g_now - g[cur].start[idx]; g[cur].running[idx] = false; }
    cur = g[cur].parent;
}
static double ref_time(int k, int idx) { return g[k].elapsed[idx] + (g[k].running[idx] ? g_now - g[k].start[idx] : 0); }
static double ref_max(int k) { double t = 0; for (int i = 0; i < g[k].slots; ++i) if (ref_time(k, i) > t) t = ref_time(k, i); return t; }
// The report, line by line.
static int ln;
static bool line_is(int l, const char* name)
{
    const int n = sym_log_args(l);
    for (int k = n - 1; k >= 0; --k) if (sym_log_len(l, k) >= 0)
    {
        for (int i = 0; ; ++i) { if (sym_log_char(l, k, i) != (unsigned char) name[i]) return false; if (!name[i]) return true; }
    }
    return false;
}
static double line_num(int l, int which) // numbers of the line
{
    const int n = sym_log_args(l);
    int seen = 0;
    for (int k = 0; k < n; ++k)
    {
        if (sym_log_len(l, k) >= 0 || k == 1) continue; // texts, and the character in front of the name
        if (seen++ == which) return sym_log_double(l, k);
    }
    return -1;
}
static int line_depth(int l) { return sym_log_len(l, 0); }
static void line_check(const char* name, double t, double total, int depth, bool percent)
{
    sym_check(ln < sym_log_count(), "line-there");
    if (ln >= sym_log_count()) return;
    sym_check(line_is(ln, name), "line-name");
    sym_near(line_num(ln, 0), t, "line-time");
    if (percent && total > 0) sym_near(line_num(ln, 1) * total, 100 * t, "line-percent");
    sym_check(line_depth(ln) == depth, "line-depth");
    ++ln;
}
static void ref_report(int k, int depth)
{
    const double total = ref_max(k);
    bool seen[24] = {false};
    double sum = 0, last = -1;
    int nc = 0;
    for (int i = 0; i < ng; ++i) if (g[i].parent == k) ++nc;
    for (int c = 0; c < nc; ++c)
    {
        int j = -1;
        if (ln >= sym_log_count()) { sym_check(false, "all-children-reported"); return; }
        for (int i = 0; i < ng; ++i) if (g[i].parent == k && !seen[i] && line_is(ln, g[i].name)) j = i;
        sym_check(j >= 0, "child-reported-once");
        if (j < 0) return;
        seen[j] = true;
        const double t = ref_max(j);
        sym_check(c == 0 || t <= last, "longest-first");
        last = t; sum += t;
        line_check(g[j].name, t, total, (depth + 1) * 2, true);
        if (g[j].slots > 1)
        {
            const int n = g[j].slots;
            double v[3]; for (int i = 0; i < n; ++i) v[i] = ref_time(j, i);
            for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) if (v[b] < v[a]) { const double x = v[a]; v[a] = v[b]; v[b] = x; }
            line_check("Minimum", v[0], total, (depth + 2) * 2, true);
            line_check("Maximum", v[n - 1], total, (depth + 2) * 2, true);
            line_check("Median", v[n / 2], total, (depth + 2) * 2, true);
            line_check("Interquartile range", v[3 * (n / 4)] - v[n / 4], total, (depth + 2) * 2, false);
        }
        bool inner = false;
        for (int i = 0; i < ng; ++i) if (g[i].parent == j) inner = true;
        if (inner) ref_report(j, depth + 1);
    }
    if (sum < 0.99 * total) line_check("(unaccounted time)", total - sum, total, (depth + 1) * 2, true);
}
static void report(sdp_Timers* t, const char* full)
{
    sym_log_start();
    sdp_timers_report(t, "f", "file", 1);
    ln = 0;
    line_check(full, ref_max(0), 1, 0, false);
    ref_report(0, 0);
    sym_check(ln == sym_log_count(), "no-other-lines");
}
static const char* NAME[] = {"a", "a rather long name of a timer", "b"};
static void nested(int len, int names)
{
    sdp_Timers* t = sdp_timers_create("all", SDP_TIMER_NATIVE, CFG(th, 1));
    ng = 0;
    int cur = ref_new(-1, "root", 1);
    g[0].running[0] = true; g[0].start[0] = g_now;
    tick(1);
    for (int i = 0; i < len; ++i)
    {
        const int op = sym_choice("op", 0, 2 * names + (i ? 1 : 0));
        sdp_TimerNode* r = 0;
        if (op < names) { r = sdp_timers_push(t, NAME[op], 0, 0); ref_push(cur, NAME[op], 0); }
        else if (op < 2 * names) { r = sdp_timers_pop_push(t, NAME[op - names], 0, 0); ref_pop(cur, 0); ref_push(cur, NAME[op - names], 0); }
        else if (op == 2 * names) { r = sdp_timers_pop(t, 0, 0); ref_pop(cur, 0); }
        else sdp_timers_report(t, "f", "file", 1); // makes no difference later
        sym_check(r == 0, "state-kept-inside");
        tick(1);
    }
    report(t, CFG(th, 1) > 1 ? "all, 4 threads" : "all, 1 thread");
    sdp_timers_free(t);
}
// Threads, each with its own place in the hierarchy.
static void threads(int len, int slots)
{
    sdp_Timers* t = sdp_timers_create("all", SDP_TIMER_NATIVE, 4);
    ng = 0;
    int root = ref_new(-1, "root", 1);
    g[0].running[0] = true; g[0].start[0] = g_now;
    g[0].node = sdp_timers_root(t);
    if (CFG(pre, 0)) { (void) sdp_timers_push(t, NAME[2], 0, 0); ref_push(root, NAME[2], 0); }
    tick(1);
    // "a" under the current node (or the root), the other one within it.
    sdp_TimerNode* top = sdp_timers_create_set(t, NAME[0], slots, CFG(pre, 0) ? 0 : g[0].node);
    int a = ref_new(root, NAME[0], slots);
    g[a].node = top;
    int b = ref_new(a, NAME[1], slots);
    g[b].node = sdp_timers_create_set(t, NAME[1], slots, top);
    sym_check(sdp_timers_create_set(t, NAME[1], slots, top) == g[b].node, "same-node");
    sdp_TimerNode* at[3]; int cur[3];
    for (int i = 0; i < slots; ++i) { cur[i] = CFG(pre, 0) ? a : 0; at[i] = CFG(pre, 0) ? top : g[0].node; if (CFG(pre, 0)) break; }
    if (CFG(pre, 0)) for (int i = 0; i < slots; ++i) { cur[i] = a; at[i] = top; }
    for (int i = 0; i < len; ++i)
    {
        const int th = sym_choice("thread", 0, slots - 1), op = sym_choice("op", 0, 2);
        if (op == 0) // down
        {
            sym_assume(cur[th] != b);
            const char* name = cur[th] == a ? NAME[1] : NAME[0];
            at[th] = sdp_timers_push(t, name, th, at[th]);
            ref_push(cur[th], name, th);
        }
        else if (op == 1) // up
        {
            sym_assume(cur[th] == 0 || g[cur[th]].running[th]);
            at[th] = sdp_timers_pop(t, th, at[th]);
            ref_pop(cur[th], th);
        }
        else // the same again
        {
            sym_assume(cur[th] != 0 && g[cur[th]].running[th]);
            const char* name = g[cur[th]].name;
            at[th] = sdp_timers_pop_push(t, name, th, at[th]);
            ref_pop(cur[th], th); ref_push(cur[th], name, th);
        }
        sym_check(at[th] == g[cur[th]].node, "node-of-the-thread");
        tick(1);
    }
    report(t, "all, 4 threads");
    sdp_timers_free(t);
}
// One timer.
static void plain(int len)
{
    sdp_Timer* t = sdp_timer_create(SDP_TIMER_NATIVE);
    double elapsed = 0; int start = 0; bool running = false;
    for (int i = 0; i < len; ++i)
    {
        tick(1);
        const int op = sym_choice("op", 0, 5);
        if (op == 0) { sdp_timer_start(t); elapsed = 0; running = true; start = g_now; }
        else if (op == 1) { sdp_timer_pause(t); if (running) elapsed += g_now - start; running = false; }
        else if (op == 2) { sdp_timer_resume(t); if (!running) start = g_now; running = true; }
        else if (op == 3) { sym_assume(!running); sdp_timer_restart(t); start = g_now; running = true; }
        else if (op == 4) { sdp_timer_reset(t); elapsed = 0; running = false; }
        else sym_near(sdp_timer_elapsed(t), elapsed + (running ? g_now - start : 0), "elapsed");
    }
    tick(1);
    sym_near(sdp_timer_elapsed(t), elapsed + (running ? g_now - start : 0), "elapsed");
    sdp_timer_free(t);
}
static void coords()
{
    char type[8] = {'I', 'C', 'R', 'S', 0};
    const double a = sym_double("a", -10, 10), b = sym_double("b", -10, 10), c = sym_double("c", -10, 10), e = sym_double("epoch", -3000, 3000);
    sdp_SkyCoord* s = sdp_sky_coord_create(type, a, b, c);
    sdp_SkyCoord* o = sdp_sky_coord_create("AltAz, a longer kind of coordinates", c + 1, a + 1, b + 1);
    sym_near(sdp_sky_coord_epoch(s), 2000.0, "default-epoch");
    type[0] = 'x';
    sdp_sky_coord_set_epoch(s, e);
    const double v[3] = {a, b, c};
    const int d = sym_choice("dim", -2, 4);
    sym_near(sdp_sky_coord_value(s, d), d >= 0 && d < 3 ? v[d] : 0, "value");
    sym_near(sdp_sky_coord_epoch(s), e, "epoch");
    sym_near(sdp_sky_coord_epoch(o), 2000.0, "other-epoch");
    const double w[3] = {c + 1, a + 1, b + 1};
    sym_near(sdp_sky_coord_value(o, d), d >= 0 && d < 3 ? w[d] : 0, "other-value");
    sym_check(eq(sdp_sky_coord_type(s), "ICRS") && eq(sdp_sky_coord_type(o), "AltAz, a longer kind of coordinates"), "type");
    sdp_sky_coord_free(o);
    sym_near(sdp_sky_coord_value(s, d), d >= 0 && d < 3 ? v[d] : 0, "value");
    sdp_sky_coord_free(s);
    sdp_sky_coord_free(0);
    sdp_sky_coord_set_epoch(0, 1);
    sym_near(sdp_sky_coord_value(0, d), 0, "no-coordinate");
    sym_near(sdp_sky_coord_epoch(0), 0, "no-coordinate");
    sym_check(sdp_sky_coord_type(0) == 0, "no-coordinate");
}
extern "C" void harness(void)
{
    const int op = CFG(op, 0);
    sym_leak_begin();
    if (op == 0) nested(CFG(len, 3), CFG(names, 2));
    else if (op == 1) threads(CFG(len, 3), CFG(slots, 2));
    else if (op == 2) plain(CFG(len, 4));
    else coords();
    sym_leak_check();
}

// Reading a document under all schedules of the reader thread and the caller (C21).
#include "h.hpp"
#include <pthread.h>
#include <sched.h>
#ifndef TIER
#define TIER 1
#endif
#ifndef PRE
#define PRE 2
#endif
// every STEP-th position takes the arbitrary byte
#ifndef STEP
#define STEP 1
#endif
#ifndef DEL
#define DEL 2
#endif
static bool eq(const S &a, const S &b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size()); }
#define NSX "xmlns=\"http://www.srcML.org/srcML/src\""
static S unitx(const char *at, const S &body) { return S("<unit ") + at + ">" + body + "</unit>"; }
static S document(int kind) {
    switch (kind) {
    case 0: return S("<unit " NSX " revision=\"1.0.0\">\n\n") + unitx("revision=\"1.0.0\" language=\"C\" filename=\"a.c\"", "<expr_stmt>a\n;</expr_stmt>\n") + "\n\n" + unitx("revision=\"1.0.0\" language=\"C++\" filename=\"b\"", "b&lt;") + "\n\n</unit>\n";
    case 1: return S("<unit " NSX " revision=\"1.0.0\" language=\"C\" filename=\"s.c\"><expr_stmt>x\n;</expr_stmt>\n</unit>\n");
    default: return S("<unit " NSX " revision=\"1.0.0\" url=\"u\">\n\n</unit>\n"); }
}
struct R { S t; int units; bool rest; R() : units(0), rest(true) {} };
// what the caller sees; op: 0 read a unit, 1 skip a unit, 2 close
static R consume(const S &d, const int *op, int nop) {
    R r; char b[32];
    srcml_archive *a = srcml_archive_create();
    int rc = srcml_archive_read_open_memory(a, d.data(), d.size());
    snprintf(b, sizeof b, "open %d;", rc); r.t += b;
    if (rc == 0) {
        r.t += nz(srcml_archive_get_url(a)); r.t += nz(srcml_archive_get_xml_encoding(a)); r.t += srcml_archive_is_solitary_unit(a) ? "S" : "A";
        for (int i = 0; i < nop; ++i) {
            if (op[i] == 2) { srcml_archive_close(a); r.t += "C"; }
            else if (op[i] == 1) { int k = srcml_archive_skip_unit(a); r.t += k ? "s1" : "s0"; }
            else { srcml_unit *u = srcml_archive_read_unit(a); r.t += u ? "U" : "N"; if (u) { ++r.units; r.t += nz(srcml_unit_get_filename(u)); r.t += nz(srcml_unit_get_language(u)); r.t += nz(srcml_unit_get_srcml(u)); r.t += nz(srcml_unit_get_srcml_inner(u)); snprintf(b, sizeof b, "%d", (int)srcml_unit_get_loc(u)); r.t += b; srcml_unit_free(u); } }
        }
    }
    srcml_archive_close(a); srcml_archive_free(a);
    return r;
}
static const int SCRIPT[][4] = {{0, 0, 0, 2}, {1, 0, 0, 2}, {0, 1, 1, 0}, {0, 2, 0, 0}, {1, 2, 0, 0}, {2, 0, 0, 0}};
#define NSCRIPT 6
static S dumb;
static S mutate(int cfg) {
    S d = document(cfg % 3); int m = cfg / 3;
    if (m == 1) { d.resize(sym_choice((int)d.size())); }                         // truncated anywhere
    else if (m == 2) {                                                            // an arbitrary byte anywhere
        unsigned char c = sym_byte(); int at = sym_choice((int)d.size() / STEP + 1) * STEP + (STEP > 1 ? (int)d.size() % STEP : 0);
        if (at == (int)d.size()) d += (char)c; else d[at] = (char)c;
    }
    return d;
}
extern "C" {
static const char *CN[] = {"archive", "solitary", "empty archive", "truncated archive", "truncated solitary", "truncated empty archive", "byte in an archive", "byte in a solitary unit", "byte in an empty archive", "two callers"};
const char *sym_config_name(int c) { return c < 10 ? CN[c] : 0; }
void sym_setup(void) {}
struct Call { S d; const int *op; R r; };
static void *call(void *p) { Call *c = (Call *)p; c->r = consume(c->d, c->op, 4); return 0; }
void sym_harness(int c) {
    S d = c < 9 ? mutate(c) : document(sym_choice(2));
    const int *op = SCRIPT[c < 9 ? sym_choice(c < 3 ? NSCRIPT : TIER > 1 ? NSCRIPT : 2) : 0];
    coro_on(1, 0, 0); R want = consume(d, op, 4);
    CHECK(coro_alive() == 0, "no thread is left");
    if (c < 2) CHECK(op != SCRIPT[0] || want.units == 2 - c, "the units of the document");
    coro_on(2, c < 3 ? PRE + 1 : PRE, c < 6 || STEP == 1);
    if (c < 9) {
        R got = consume(d, op, 4);
        sym_note("%s\n---got\n%s\n---want\n%s", d.c_str(), got.t.c_str(), want.t.c_str());
        CHECK(coro_alive() == 0, "no thread is left after an archive is freed");
        CHECK(eq(got.t, want.t), "what is read does not depend on the schedule");
    } else {
        // at DEL switch points another thread goes on than in a run to completion
        int at[4], who[4], n = 0;
        for (int round = 0; round < 2; ++round) {
            Call k[2]; pthread_t t[2];
            coro_delay(n, at, who);
            for (int i = 0; i < 2; ++i) { k[i].d = d; k[i].op = op; pthread_create(&t[i], 0, call, &k[i]); }
            for (int i = 0; i < 2; ++i) pthread_join(t[i], 0);
            CHECK(coro_alive() == 0, "no thread is left after an archive is freed");
            for (int i = 0; i < 2; ++i) CHECK(eq(k[i].r.t, want.t), "callers in different threads do not influence each other");
            int last = 0; if (!round) { int m = coro_points(); for (; n < DEL; ++n) { at[n] = last + sym_choice(m - last > 0 ? m - last : 1); last = at[n] + 1; who[n] = 1 + sym_choice(3); } }
        }
    }
    sym_reach("read");
}
}

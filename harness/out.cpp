// Output.  PROP 30: delivery of documents and source; 22: independence of archives and units; 32: the convenience function; 20: status codes
#include "h.hpp"
#ifndef PROP
#define PROP 30
#endif
#ifndef TIER
#define TIER 1
#endif
static bool eq(const S &a, const S &b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), b.size()); }
static bool eq(const char *a, const S &b) { return a && strlen(a) == b.size() && !memcmp(a, b.data(), b.size()); }
static S slurp(const char *n) { static char buf[20000]; long k = sym_slurp(n, buf, sizeof buf); return k < 0 ? S("\1none") : S(buf, k); }
static void wf(const S &doc, Xml &x) { bool ok = x.parse(doc.data(), doc.size()); if (!ok) sym_note("not well-formed: %s at %zu\n%s", x.why, x.pos, doc.c_str()); CHECK(ok, "the document is well-formed XML"); }
struct Sink { S s; int writes, closed, failAt, failClose, failed; Sink() : writes(0), closed(0), failAt(-1), failClose(0), failed(0) {} };
static int wr(void *c, const char *b, int n) { Sink *s = (Sink *)c; CHECK(!s->closed, "nothing is written after closing"); if (s->writes++ == s->failAt) { s->failed = 1; return -1; } if (n) s->s.append(b, n); return n; }
static int cl(void *c) { Sink *s = (Sink *)c; s->closed++; if (s->failClose) { s->failed = 1; return -1; } return 0; }
static const char *KIND[] = {"memory", "filename", "FILE", "fd", "io", "io without close"};
#include <fcntl.h>
#include <unistd.h>
#if PROP == 30
static const char *CN[] = {"archive", "large archive", "source", "large source", "write fails", "archive write fails", "not openable"};
// one document, written to a destination of the given kind
static S writeTo(int kind, const S &src, const char *xmlenc, bool solitary, int units, bool explicitClose, size_t opts) {
    int fds = sym_openfds();
    srcml_archive *a = srcml_archive_create(); srcml_archive_disable_hash(a); if (xmlenc) srcml_archive_set_xml_encoding(a, xmlenc); if (solitary) srcml_archive_enable_solitary_unit(a); if (opts) srcml_archive_enable_option(a, opts);
    Buf o; Sink k; FILE *f = 0; int fd = -1; int rc;
    switch (kind) { case 0: rc = srcml_archive_write_open_memory(a, &o.p, &o.n); break; case 1: rc = srcml_archive_write_open_filename(a, "vfs_o"); break; case 2: f = fopen("vfs_o", "wb"); rc = srcml_archive_write_open_FILE(a, f); break;
        case 3: fd = open("vfs_o", O_WRONLY | O_CREAT | O_TRUNC, 0600); rc = srcml_archive_write_open_fd(a, fd); break; default: rc = srcml_archive_write_open_io(a, &k, wr, kind == 4 ? cl : 0); }
    CHECK(rc == 0, "opens");
    for (int i = 0; i < units; ++i) { srcml_unit *u = srcml_unit_create(a); srcml_unit_set_language(u, i ? "C" : "C++"); srcml_unit_set_src_encoding(u, "UTF-8"); srcml_unit_set_filename(u, i ? "b" : "a"); rc = i ? srcml_unit_parse_memory(u, "c;\n", 3) : srcml_unit_parse_memory(u, src.data(), src.size()); CHECK(rc == 0, "parses"); CHECK(srcml_archive_write_unit(a, u) == 0, "written"); srcml_unit_free(u); }
    if (explicitClose || kind == 0) srcml_archive_close(a);
    srcml_archive_free(a);
    if (kind == 2) fclose(f); if (kind == 3) CHECK(close(fd) == 0, "a descriptor of the caller stays open");
    if (kind == 4) CHECK(k.closed == 1, "the output is closed once");
    CHECK(sym_openfds() == fds, "every descriptor the library opened is closed");
    S d = kind == 0 ? o.str() : kind <= 3 ? slurp("vfs_o") : k.s; if (kind == 0) srcml_memory_free(o.p); return d;
}
static S unparseTo(srcml_unit *u, int kind) {
    int fds = sym_openfds(); Buf o; Sink k; FILE *f = 0; int fd = -1; int rc;
    switch (kind) { case 0: rc = srcml_unit_unparse_memory(u, &o.p, &o.n); break; case 1: rc = srcml_unit_unparse_filename(u, "vfs_s"); break; case 2: f = fopen("vfs_s", "wb"); rc = srcml_unit_unparse_FILE(u, f); break;
        case 3: fd = open("vfs_s", O_WRONLY | O_CREAT | O_TRUNC, 0600); rc = srcml_unit_unparse_fd(u, fd); break; default: rc = srcml_unit_unparse_io(u, &k, wr, kind == 4 ? cl : 0); }
    CHECK(rc == 0, "the source is written");
    if (kind == 2) fclose(f); if (kind == 3) CHECK(close(fd) == 0, "a descriptor of the caller stays open");
    if (kind == 4) CHECK(k.closed == 1, "the output is closed once");
    CHECK(sym_openfds() == fds, "every descriptor the library opened is closed");
    S d = kind == 0 ? o.str() : kind <= 3 ? slurp("vfs_s") : k.s; if (kind == 0) srcml_memory_free(o.p); return d;
}
extern "C" {
const char *sym_config_name(int c) { return c < 7 ? CN[c] : 0; }
void sym_setup(void) {}
void sym_harness(int c) {
    char b[2]; bool big = c == 1 || c == 3;
    S src = "a=\"x\";\n/* \xC3\xA9 */\n"; sym_make(b, 1); if (big) sym_assume(b[0] == 'z' || b[0] == '<' || b[0] == '\f'); else sym_assume(b[0] >= 0); src.insert(3, b, 1);
    if (big) { S pad; int n = 3960 + sym_choice(3) * 20 + sym_choice(2) * 4000; for (int i = 0; i < n; ++i) pad += i % 40 == 39 ? '\n' : i % 40 == 38 ? '\t' : ' '; src = pad + src + pad.substr(0, 100); }
    static const char *ENC[] = {0, "UTF-8", "ISO-8859-1", "UTF-16LE", "UTF-16"};
    if (c <= 1) {
        int e = sym_choice(big ? 2 : 4), kind = 1 + sym_choice(5), n = sym_choice(big ? 1 : 3), ec = sym_choice(2); bool sol = n == 1 && sym_choice(2); size_t op = sym_choice(2) ? SRCML_OPTION_NO_XML_DECL : 0; if (big) { e *= 2; n = 1; } if (!n || e == 3) ec = 1;
        S base = writeTo(0, src, ENC[e], sol, n, true, op), d = writeTo(kind, src, ENC[e], sol, n, ec, op); sym_out(d.data(), d.size()); sym_note("%s\n%s\nto %s", base.c_str(), d.c_str(), KIND[kind]);
        if (ec) CHECK(eq(d, base), "the document is the same wherever it is written");
        else { Xml x; if (e < 2) wf(d, x); S p, q; for (char h : d) if (h != '\n') p += h; for (char h : base) if (h != '\n') q += h; CHECK(eq(p, q), "freeing an archive that is not closed completes the document"); }
        sym_reach("output checked"); return;
    }
    if (c == 5) {
        srcml_archive *a = srcml_archive_create(); srcml_archive_disable_hash(a); Sink k; k.failAt = sym_choice(4); k.failClose = sym_choice(2); CHECK(srcml_archive_write_open_io(a, &k, wr, cl) == 0, "opens");
        for (int i = 0; i < 2; ++i) { srcml_unit *u = srcml_unit_create(a); srcml_unit_set_language(u, "C++"); int rc = srcml_unit_parse_memory(u, src.data(), src.size()); CHECK(rc == 0, "parses"); srcml_archive_write_unit(a, u); srcml_unit_free(u); }
        if (sym_choice(2)) srcml_archive_close(a); srcml_archive_free(a); CHECK(k.closed == 1, "the output is closed once"); sym_reach("output checked"); return;
    }
    // a unit read from a document, or one that was parsed and kept in memory
    S doc; { POpt o; Parsed p = parseDoc(src.data(), src.size(), o); CHECK(p.rc_parse == 0 && p.rc_write == 0, "parses"); doc = p.doc; }
    srcml_archive *r = srcml_archive_create(); CHECK(srcml_archive_read_open_memory(r, doc.data(), doc.size()) == 0, "opens"); srcml_unit *u = srcml_archive_read_unit(r); CHECK(u != 0, "unit");
    int e = big ? 1 : 1 + sym_choice(3), el = big ? 3 : sym_choice(4); srcml_unit_set_src_encoding(u, ENC[e]); srcml_unit_set_eol(u, el);
    if (c == 6) {
        int k = sym_choice(3); int rc = k == 0 ? srcml_unit_unparse_filename(u, "/nonexistent/x") : 1; if (k == 0) CHECK(rc != 0, "a file that cannot be opened is an error");
        if (k == 1) { srcml_archive *w = srcml_archive_create(); CHECK(srcml_archive_write_open_filename(w, "/nonexistent/x") != 0, "a file that cannot be opened is an error"); CHECK(srcml_archive_write_unit(w, u) != 0, "nothing can be written to an archive that is not open"); srcml_archive_close(w); srcml_archive_free(w); }
        if (k == 2) { srcml_archive *w = srcml_archive_create(); CHECK(srcml_archive_read_open_filename(w, "/nonexistent/x") != 0, "a file that cannot be opened is an error"); CHECK(srcml_archive_read_unit(w) == 0, "nothing can be read from an archive that is not open"); srcml_archive_close(w); srcml_archive_free(w); }
    } else if (c == 4) {
        Sink k; k.failAt = sym_choice(3) - 1; k.failClose = sym_choice(2); int rc = srcml_unit_unparse_io(u, &k, wr, cl); sym_note("writes %d closed %d failed %d rc %d", k.writes, k.closed, k.failed, rc);
        CHECK(k.closed == 1, "the output is closed once"); CHECK((rc != 0) == (k.failed != 0), "a failing write or close is an error, and nothing else is");
        // the unit can still be used
        S again = unparseTo(u, 0); CHECK(!again.empty(), "the unit can be written again");
    } else {
        int kind = 1 + sym_choice(5); S base = unparseTo(u, 0), d = unparseTo(u, kind); sym_out(d.data(), d.size()); CHECK(eq(d, base), "the source is the same wherever it is written");
    }
    srcml_unit_free(u); srcml_archive_close(r); srcml_archive_free(r); sym_reach("output checked");
}
}
#endif

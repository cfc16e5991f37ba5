// Histories of calls.  PROP 20: arguments and states that are refused; 33: an archive is closed and used again; 22: independence
#include "h.hpp"
#ifndef PROP
#define PROP 20
#endif
#ifndef TIER
#define TIER 1
#endif
static bool eq(const S &a, const S &b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), b.size()); }
static bool eq(const char *a, const S &b) { return a && strlen(a) == b.size() && !memcmp(a, b.data(), b.size()); }
static void wf(const S &doc, Xml &x) { bool ok = x.parse(doc.data(), doc.size()); if (!ok) sym_note("not well-formed: %s at %zu\n%s", x.why, x.pos, doc.c_str()); CHECK(ok, "the document is well-formed XML"); }
static srcml_unit *mk(srcml_archive *a, const S &src, const char *lang = "C++") { srcml_unit *u = srcml_unit_create(a); srcml_unit_set_language(u, lang); srcml_unit_set_src_encoding(u, "UTF-8"); CHECK(srcml_unit_parse_memory(u, src.data(), src.size()) == 0, "parses"); return u; }
static S text(srcml_unit *u) { Buf o; srcml_unit_set_src_encoding(u, "UTF-8"); int rc = srcml_unit_unparse_memory(u, &o.p, &o.n); CHECK(rc == 0, "the source is written"); S s = o.str(); srcml_memory_free(o.p); return s; }
static S arch(const std::vector<S> &srcs) { srcml_archive *a = srcml_archive_create(); Buf o; CHECK(srcml_archive_write_open_memory(a, &o.p, &o.n) == 0, "opens"); for (size_t i = 0; i < srcs.size(); ++i) { srcml_unit *u = mk(a, srcs[i]); CHECK(srcml_archive_write_unit(a, u) == 0, "written"); srcml_unit_free(u); } srcml_archive_close(a); srcml_archive_free(a); S d = o.str(); srcml_memory_free(o.p); return d; }
#if PROP == 20 || PROP == 33
static const char *CN[] = {"history", "missing arguments", "numbers", "names"};
static int wcb(void *, const char *, int n) { return n; }
static int rcb(void *, char *, int) { return 0; }
static ssize_t scb(void *, void *, size_t) { return 0; }
static int ccb(void *) { return 0; }
// everything that can be asked of an archive and a unit
static S settings(srcml_archive *a, srcml_unit *u) {
    S s; char n[200]; snprintf(n, sizeof n, "%llu %zu %d %d %zu %zu %d %d|", (unsigned long long)srcml_archive_get_options(a), srcml_archive_get_tabstop(a), srcml_archive_has_hash(a), srcml_archive_is_solitary_unit(a), srcml_archive_get_srcdiff_revision(a), srcml_unit_get_eol(u), srcml_unit_get_loc(u), (int)srcml_archive_get_namespace_size(a)); s = n;
    const char *v[] = {srcml_archive_get_xml_encoding(a), srcml_archive_get_src_encoding(a), srcml_archive_get_revision(a), srcml_archive_get_language(a), srcml_archive_get_url(a), srcml_archive_get_version(a), srcml_archive_get_processing_instruction_target(a), srcml_archive_get_processing_instruction_data(a), srcml_archive_check_extension(a, "a.cpp"), srcml_archive_check_extension(a, "a.java"), srcml_archive_check_extension(a, "a.zz"), srcml_unit_get_src_encoding(u), srcml_unit_get_revision(u), srcml_unit_get_language(u), srcml_unit_get_filename(u), srcml_unit_get_version(u), srcml_unit_get_timestamp(u), srcml_unit_get_hash(u)};
    for (size_t i = 0; i < sizeof v / sizeof *v; ++i) s += nz(v[i]) + "|"; for (size_t i = 0; i < srcml_archive_get_namespace_size(a); ++i) s += nz(srcml_archive_get_namespace_prefix(a, i)) + "=" + nz(srcml_archive_get_namespace_uri(a, i)) + "|"; return s;
}
// calls with a missing argument.  R: must report an error; Z: must return nothing; V: must only do nothing
static int missing(int k, srcml_archive *a, srcml_unit *u) {
    Buf o; char x; int bad = 0, n = 0; char ctx;
#define R(c) if (n++ == k) { bad = (c) == SRCML_STATUS_OK; return bad; }
#define Z(c) if (n++ == k) { bad = (c) != 0; return bad; }
#define V(c) if (n++ == k) { c; return 0; }
    srcml_archive *A = 0; srcml_unit *U = 0; const char *N = 0; FILE *F = 0;
    R(srcml_archive_write_unit(A, u)) R(srcml_archive_write_unit(a, U)) R(srcml_archive_write_string(A, "x", 1)) R(srcml_archive_write_string(a, N, 1)) R(srcml_archive_write_string(a, "x", -1)) V(srcml_archive_close(A)) V(srcml_archive_free(A)) Z(srcml_archive_clone(A))
    R(srcml_archive_write_open_filename(A, "vfs_n")) R(srcml_archive_write_open_filename(a, N)) R(srcml_archive_write_open_memory(A, &o.p, &o.n)) R(srcml_archive_write_open_memory(a, 0, &o.n)) R(srcml_archive_write_open_memory(a, &o.p, 0)) R(srcml_archive_write_open_FILE(a, F)) R(srcml_archive_write_open_FILE(A, F)) R(srcml_archive_write_open_fd(a, -1)) R(srcml_archive_write_open_fd(A, 1)) R(srcml_archive_write_open_io(a, 0, wcb, ccb)) R(srcml_archive_write_open_io(a, &ctx, 0, ccb)) R(srcml_archive_write_open_io(A, &ctx, wcb, ccb))
    R(srcml_archive_read_open_filename(A, "vfs_n")) R(srcml_archive_read_open_filename(a, N)) R(srcml_archive_read_open_memory(A, "<unit/>", 7)) R(srcml_archive_read_open_memory(a, N, 7)) R(srcml_archive_read_open_memory(a, "<unit/>", 0)) R(srcml_archive_read_open_FILE(a, F)) R(srcml_archive_read_open_fd(a, -1)) R(srcml_archive_read_open_fd(A, 1)) R(srcml_archive_read_open_io(a, 0, rcb, ccb)) R(srcml_archive_read_open_io(a, &ctx, 0, ccb)) R(srcml_archive_read_open_io(A, &ctx, rcb, ccb))
    Z(srcml_archive_is_solitary_unit(A)) R(srcml_archive_enable_solitary_unit(A)) R(srcml_archive_disable_solitary_unit(A)) Z(srcml_archive_has_hash(A)) R(srcml_archive_enable_hash(A)) R(srcml_archive_disable_hash(A)) R(srcml_archive_set_xml_encoding(A, "UTF-8")) R(srcml_archive_set_src_encoding(A, "UTF-8")) R(srcml_archive_set_language(A, "C")) R(srcml_archive_set_options(A, 1)) R(srcml_archive_enable_option(A, 1)) R(srcml_archive_disable_option(A, 1)) R(srcml_archive_set_tabstop(A, 4)) R(srcml_archive_register_file_extension(A, "a", "C")) R(srcml_archive_register_file_extension(a, N, "C")) R(srcml_archive_register_file_extension(a, "a", N)) R(srcml_archive_register_namespace(A, "p", "u")) R(srcml_archive_register_namespace(a, N, "u")) R(srcml_archive_register_namespace(a, "p", N)) R(srcml_archive_set_processing_instruction(A, "t", "d")) R(srcml_archive_set_processing_instruction(a, N, "d")) R(srcml_archive_set_processing_instruction(a, "t", N)) R(srcml_archive_set_url(A, "u")) R(srcml_archive_set_version(A, "v")) R(srcml_archive_set_srcdiff_revision(A, 0))
    Z(srcml_archive_get_xml_encoding(A)) Z(srcml_archive_get_src_encoding(A)) Z(srcml_archive_get_revision(A)) Z(srcml_archive_get_language(A)) Z(srcml_archive_get_url(A)) Z(srcml_archive_get_version(A)) V(srcml_archive_get_options(A)) V(srcml_archive_get_tabstop(A)) Z(srcml_archive_get_namespace_size(A)) Z(srcml_archive_get_namespace_prefix(A, 0)) Z(srcml_archive_get_namespace_uri(A, 0)) Z(srcml_archive_get_prefix_from_uri(A, "u")) Z(srcml_archive_get_prefix_from_uri(a, N)) Z(srcml_archive_get_uri_from_prefix(A, "p")) Z(srcml_archive_get_uri_from_prefix(a, N)) Z(srcml_archive_get_processing_instruction_target(A)) Z(srcml_archive_get_processing_instruction_data(A)) Z(srcml_archive_check_extension(A, "a.c")) Z(srcml_archive_check_extension(a, N)) Z(srcml_archive_read_unit(A)) Z(srcml_archive_skip_unit(A)) V(srcml_archive_get_srcdiff_revision(A)) V(srcml_archive_error_number(A)) V(srcml_archive_error_string(A))
    Z(srcml_unit_create(A)) Z(srcml_unit_clone(U)) V(srcml_unit_free(U)) R(srcml_unit_set_src_encoding(U, "UTF-8")) R(srcml_unit_set_language(U, "C")) R(srcml_unit_set_filename(U, "f")) R(srcml_unit_set_version(U, "v")) R(srcml_unit_set_timestamp(U, "t")) R(srcml_unit_set_eol(U, 1)) Z(srcml_unit_get_src_encoding(U)) Z(srcml_unit_get_revision(U)) Z(srcml_unit_get_language(U)) Z(srcml_unit_get_filename(U)) Z(srcml_unit_get_version(U)) Z(srcml_unit_get_timestamp(U)) Z(srcml_unit_get_hash(U)) V(srcml_unit_get_loc(U)) V(srcml_unit_get_eol(U)) Z(srcml_unit_get_srcml(U)) Z(srcml_unit_get_srcml_outer(U)) Z(srcml_unit_get_srcml_inner(U)) V(srcml_unit_error_number(U)) V(srcml_unit_error_string(U))
    R(srcml_unit_parse_filename(U, "vfs_n")) R(srcml_unit_parse_filename(u, N)) R(srcml_unit_parse_memory(U, "a", 1)) R(srcml_unit_parse_memory(u, N, 1)) R(srcml_unit_parse_FILE(U, F)) R(srcml_unit_parse_FILE(u, F)) R(srcml_unit_parse_fd(U, 1)) R(srcml_unit_parse_fd(u, -1)) R(srcml_unit_parse_io(U, &ctx, scb, ccb)) R(srcml_unit_parse_io(u, 0, scb, ccb)) R(srcml_unit_parse_io(u, &ctx, 0, ccb))
    R(srcml_unit_unparse_filename(U, "vfs_n")) R(srcml_unit_unparse_filename(u, N)) R(srcml_unit_unparse_memory(U, &o.p, &o.n)) R(srcml_unit_unparse_memory(u, 0, &o.n)) R(srcml_unit_unparse_memory(u, &o.p, 0)) R(srcml_unit_unparse_FILE(U, F)) R(srcml_unit_unparse_FILE(u, F)) R(srcml_unit_unparse_fd(U, 1)) R(srcml_unit_unparse_fd(u, -1)) R(srcml_unit_unparse_io(U, &ctx, wcb, ccb)) R(srcml_unit_unparse_io(u, 0, wcb, ccb)) R(srcml_unit_unparse_io(u, &ctx, 0, ccb))
    R(srcml_write_start_unit(U)) R(srcml_write_end_unit(U)) R(srcml_write_start_element(U, 0, "a", 0)) R(srcml_write_start_element(u, 0, N, 0)) R(srcml_write_end_element(U)) R(srcml_write_namespace(U, "p", "u")) R(srcml_write_namespace(u, "p", N)) R(srcml_write_attribute(U, 0, "a", 0, "v")) R(srcml_write_attribute(u, 0, N, 0, "v")) R(srcml_write_string(U, "x")) R(srcml_write_string(u, N))
    R(srcml(N, "o")) R(srcml("a.c", N)) Z(srcml_check_language(N)) Z(srcml_check_extension(N)) Z(srcml_check_encoding(N)) R(srcml_register_file_extension(N, "C")) R(srcml_register_namespace(N, "u")) V(srcml_memory_free(0))
    R(srcml_append_transform_xpath(A, "a")) R(srcml_append_transform_xpath(a, N)) R(srcml_append_transform_xpath_attribute(a, N, "p", "u", "n", "v")) R(srcml_append_transform_xpath_attribute(a, "x", N, "u", "n", "v")) R(srcml_append_transform_xpath_element(a, "x", "p", N, "e")) R(srcml_append_transform_xslt_filename(a, N)) R(srcml_append_transform_xslt_memory(a, N, 3)) R(srcml_append_transform_xslt_FILE(a, F)) R(srcml_append_transform_xslt_fd(a, -1)) R(srcml_append_transform_relaxng_filename(a, N)) R(srcml_append_transform_relaxng_memory(a, N, 3)) R(srcml_append_transform_relaxng_FILE(a, F)) R(srcml_append_transform_relaxng_fd(a, -1)) R(srcml_append_transform_param(A, "n", "v")) R(srcml_append_transform_param(a, N, "v")) R(srcml_append_transform_param(a, "n", N)) R(srcml_append_transform_stringparam(a, N, "v")) R(srcml_append_transform_stringparam(a, "n", N)) R(srcml_clear_transforms(A)) R(srcml_unit_apply_transforms(A, u, 0)) R(srcml_unit_apply_transforms(a, U, 0))
    V(srcml_transform_get_type(0)) Z(srcml_transform_get_unit_size(0)) Z(srcml_transform_get_unit(0, 0)) Z(srcml_transform_get_string(0)) V(srcml_transform_get_number(0)) V(srcml_transform_get_bool(0)) V(srcml_transform_free(0))
    // what does not exist
    R(srcml_archive_register_file_extension(a, "cpp", "no such language")) R(srcml_archive_register_file_extension(a, "zz", "")) R(srcml_archive_register_file_extension(a, "java", "c+")) R(srcml_unit_set_eol(u, 9)) R(srcml_register_file_extension("cpp", "D++")) R(srcml_append_transform_xpath_attribute(a, "x", "p", N, "n", "v")) R(srcml_append_transform_xpath_element(a, "x", N, "u", "e"))
    (void)x; return -1;
}
extern "C" {
const char *sym_config_name(int c) { return PROP == 33 ? (c == 0 ? "reuse" : 0) : (c < 3 ? CN[c] : 0); }
void sym_setup(void) {}
void sym_harness(int cf) {
  if (cf == 1) {
    srcml_archive *a = srcml_archive_create(); Buf o; CHECK(srcml_archive_write_open_memory(a, &o.p, &o.n) == 0, "opens"); S src = "a;\n"; char c; sym_make(&c, 1); src[0] = c; sym_assume(c > 32 && c < 127);
    int k = sym_choice(16) * 14 + sym_choice(14); srcml_unit *u = mk(a, src); S before = settings(a, u); int rc = missing(k, a, u); if (rc < 0) sym_assume(0); sym_note("call %d", k);
    CHECK(rc == 0, "a call without a required argument is refused"); CHECK(eq(settings(a, u), before), "a call that is refused changes no setting");
    CHECK(srcml_archive_write_unit(a, u) == 0, "the archive and the unit can still be used"); srcml_unit_free(u); srcml_archive_close(a); S d = o.str(); srcml_memory_free(o.p); srcml_archive_free(a);
    std::vector<S> in(1, src); CHECK(eq(d, arch(in)), "the document is the same as without the call"); sym_reach("history"); return;
  }
  if (cf == 2) {
    // every number that is accepted is the one that is returned
    srcml_archive *a = srcml_archive_create(); srcml_unit *u = srcml_unit_create(a); size_t v; sym_make(&v, sizeof v); int k = sym_choice(3);
    if (k == 0) { size_t before = srcml_unit_get_eol(u); int rc = srcml_unit_set_eol(u, v); CHECK((rc == 0) == (v <= SOURCE_OUTPUT_EOL_CRLF), "exactly the line endings that exist can be set"); CHECK(srcml_unit_get_eol(u) == (rc == 0 ? v : before), "the line ending is the one set last"); }
    else if (k == 1) { int rc = srcml_archive_set_tabstop(a, v); CHECK(srcml_archive_get_tabstop(a) == (rc == 0 ? v : 8), "the tab size is the one set"); }
    else { int rc = srcml_archive_set_srcdiff_revision(a, v); if (rc == 0) CHECK(srcml_archive_get_srcdiff_revision(a) == v, "the revision is the one set"); }
    srcml_unit_free(u); srcml_archive_free(a); sym_reach("history"); return;
  }
    char b[1]; sym_make(b, 1); sym_assume(b[0] == 'a' || b[0] == '{' || b[0] == '<');
    std::vector<S> in; in.push_back(S("x") + b[0] + ";\n"); in.push_back("y;\n"); S doc = arch(in);
    srcml_archive *a = srcml_archive_create(); srcml_archive_set_language(a, "C++"); srcml_unit *u = srcml_unit_create(a), *r = 0; bool parsed = false; Buf o; int state = 0; size_t at = 0; std::vector<S> out; int steps = PROP == 33 ? (TIER > 1 ? 6 : 5) : (TIER > 1 ? 5 : 4); S us; S rs;
    for (int i = 0; i <= steps; ++i) {
        int op = i == steps ? 6 : sym_choice(PROP == 33 ? 4 : 9); if (PROP == 33 && i < steps) op = op == 0 ? 0 : op == 1 ? 1 : op == 2 ? 2 : 6;
        if (PROP == 33 && op == 2) op = state == 2 ? 3 : 2; if (PROP == 33 && op == 2 && !parsed) { us = "u;"; us += b[0]; CHECK(srcml_unit_parse_memory(u, us.data(), us.size()) == 0, "parses"); parsed = true; }
        switch (op) {
        case 0: if (state) sym_assume(0); o = Buf(); CHECK(srcml_archive_write_open_memory(a, &o.p, &o.n) == 0, "an archive that is closed can be opened"); state = 1; out.clear(); break;
        case 1: if (state) sym_assume(0); CHECK(srcml_archive_read_open_memory(a, doc.data(), doc.size()) == 0, "an archive that is closed can be opened"); state = 2; at = 0; break;
        case 2: { int rc = srcml_archive_write_unit(a, u); CHECK((rc == 0) == (parsed && state == 1), "a unit is written only when it has content and the archive is open for writing"); if (rc == 0) out.push_back(us); break; }
        case 3: { srcml_unit *n = srcml_archive_read_unit(a); CHECK((n != 0) == (state == 2 && at < in.size()), "a unit is read only from an archive open for reading that has one"); if (n) { rs = in[at++]; srcml_unit_free(r); r = n; CHECK(eq(text(r), rs), "the unit that was read is the next one"); } break; }
        case 4: { int k = srcml_archive_skip_unit(a); CHECK((k != 0) == (state == 2 && at < in.size()), "a unit is skipped only in an archive open for reading that has one"); if (k) ++at; break; }
        case 5: us = "u;"; us += b[0]; CHECK(srcml_unit_parse_memory(u, us.data(), us.size()) == 0, "a unit can be parsed in any state of its archive"); parsed = true; break;
        case 6:
            srcml_archive_close(a);
            if (state == 1) { S d = o.str(); sym_note("%s", d.c_str()); Xml x; wf(d, x); std::vector<S> got; for (size_t e = 1; e < x.el.size(); ++e) if (x.el[e].name == "unit" && x.el[e].depth == 1) got.push_back(x.txt(e)); CHECK(got.size() == out.size(), "the document has the units that were written"); for (size_t k = 0; k < got.size(); ++k) CHECK(eq(got[k], out[k]), "the document has the units that were written"); char *p = o.p; srcml_archive_close(a); CHECK(o.p == p && eq(o.str(), d), "closing again changes nothing"); srcml_memory_free(o.p); }
            state = 0; break;
        case 7: if (!r) sym_assume(0); { int rc = srcml_archive_write_unit(a, r); CHECK((rc == 0) == (state == 1), "a unit is written only when the archive is open for writing"); if (rc == 0) out.push_back(rs); } break;
        case 8: { Buf t; int rc = srcml_unit_unparse_memory(u, &t.p, &t.n); CHECK((rc == 0) == (parsed && state == 2), "source is written only for a unit with content of an archive open for reading"); if (rc == 0) { CHECK(eq(t.str(), us), "the source is that of the unit"); srcml_memory_free(t.p); } break; }
        }
    }
    srcml_unit_free(u); srcml_unit_free(r); srcml_archive_free(a); sym_reach("history");
}
}
#elif PROP == 22
// a script of calls on an archive of its own, run step by step
static const char *CN[] = {"writers", "writer and reader", "readers", "writer and elements", "reader and elements", "convenience function"};
static const int KINDS[][2] = {{0, 0}, {0, 1}, {1, 1}, {0, 2}, {1, 2}, {0, 3}};
struct Script {
    int kind, var; S src, doc, result; Buf o; srcml_archive *a; srcml_unit *u;
    Script(int k, int v, const S &s, const S &d) : kind(k), var(v), src(s), doc(d), a(0), u(0) {}
    void step(int i) {
        if (kind == 0) switch (i) {
            case 0: a = srcml_archive_create(); if (var & 1) { srcml_archive_enable_option(a, SRCML_OPTION_POSITION); srcml_archive_set_tabstop(a, 4); srcml_archive_register_namespace(a, "q", "http://www.srcML.org/srcML/position"); } if (var & 2) { srcml_archive_disable_hash(a); srcml_archive_enable_solitary_unit(a); srcml_archive_set_xml_encoding(a, "ISO-8859-1"); srcml_archive_enable_option(a, SRCML_OPTION_CPP_TEXT_ELSE); srcml_archive_register_file_extension(a, "c", "Java"); } CHECK(srcml_archive_write_open_memory(a, &o.p, &o.n) == 0, "opens"); break;
            case 1: u = srcml_unit_create(a); srcml_unit_set_filename(u, "a.c"); srcml_unit_set_language(u, var & 1 ? "C++" : srcml_archive_check_extension(a, "a.c")); srcml_unit_set_src_encoding(u, "UTF-8"); break;
            case 2: CHECK(srcml_unit_parse_memory(u, src.data(), src.size()) == 0, "parses"); result += nz(srcml_unit_get_srcml(u)); break;
            case 3: CHECK(srcml_archive_write_unit(a, u) == 0, "written"); result += nz(srcml_unit_get_hash(u)); srcml_unit_free(u); u = 0; break;
            case 4: srcml_archive_close(a); srcml_archive_free(a); a = 0; result += o.str(); srcml_memory_free(o.p); break; }
        else if (kind == 1) switch (i) {
            case 0: a = srcml_archive_create(); CHECK(srcml_archive_read_open_memory(a, doc.data(), doc.size()) == 0, "opens"); break;
            case 1: u = srcml_archive_read_unit(a); CHECK(u != 0, "unit"); result += nz(srcml_unit_get_language(u)); break;
            case 2: result += text(u); srcml_unit_free(u); u = srcml_archive_read_unit(a); break;
            case 3: if (u) { result += nz(srcml_unit_get_srcml_outer(u)); result += nz(srcml_unit_get_filename(u)); srcml_unit_free(u); u = 0; } break;
            case 4: srcml_archive_close(a); result += nz(srcml_archive_get_url(a)); srcml_archive_free(a); a = 0; break; }
        else if (kind == 2) switch (i) {
            case 0: a = srcml_archive_create(); CHECK(srcml_archive_write_open_memory(a, &o.p, &o.n) == 0, "opens"); u = srcml_unit_create(a); srcml_unit_set_language(u, "C"); break;
            case 1: CHECK(srcml_write_start_unit(u) == 0, "starts"); srcml_write_start_element(u, 0, "expr", 0); srcml_write_attribute(u, 0, "k", 0, "v"); break;
            case 2: srcml_write_string(u, src.c_str()); srcml_write_end_element(u); break;
            case 3: CHECK(srcml_write_end_unit(u) == 0, "ends"); CHECK(srcml_archive_write_unit(a, u) == 0, "written"); srcml_unit_free(u); u = 0; break;
            case 4: srcml_archive_close(a); srcml_archive_free(a); a = 0; result += o.str(); srcml_memory_free(o.p); break; }
        else switch (i) {      // the global archive of the convenience function
            case 0: srcml_set_language(var & 1 ? "C++" : "C"); srcml_set_tabstop(var & 1 ? 2 : 8); break;
            case 1: srcml_enable_option(SRCML_OPTION_POSITION); break;
            case 2: { FILE *f = fopen("vfs_in.c", "wb"); fwrite(src.data(), 1, src.size(), f); fclose(f); break; }
            case 3: CHECK(srcml("vfs_in.c", "vfs_out.xml") == 0, "converts"); break;
            case 4: { static char buf[20000]; long k = sym_slurp("vfs_out.xml", buf, sizeof buf); result = k < 0 ? S("none") : S(buf, k); srcml_cleanup_globals(); break; } }
    }
};
extern "C" {
const char *sym_config_name(int c) { return c < 6 ? CN[c] : 0; }
void sym_setup(void) {}
void sym_harness(int c) {
    char b[1]; sym_make(b, 1); sym_assume(b[0] == 'a' || b[0] == '"' || b[0] == '\t');
    S s1 = S("#if A\nf(\t") + b[0] + ");\n#endif\nclass", s2 = S("/* ") + b[0] + "\n*/ x = \"y\";"; std::vector<S> in; in.push_back(s2); in.push_back("z();\n"); S d1 = arch(in); in.pop_back(); in[0] = s1; S d2 = arch(in);
    int v0 = sym_choice(3), v1 = TIER > 1 ? (int)sym_choice(3) : (v0 + 1) % 3; int v[2] = {v0, v1}; S want[2];
    int t = sym_choice(2);      // the one that is compared: it runs alone first, in a process that has done nothing else with an archive of that setup
    { int w = t; Script p(KINDS[c][w], v[w], w ? s2 : s1, w ? d2 : d1); for (int i = 0; i < 5; ++i) p.step(i); want[w] = p.result; }
    Script p(KINDS[c][0], v[0], s1, d1), q(KINDS[c][1], v[1], s2, d2); int i = 0, j = 0;
    while (i < 5 || j < 5) { bool first = i < 5 && (j == 5 || sym_choice(2) == 0); if (first) p.step(i++); else q.step(j++); }
    sym_note("%s\n---\n%s\n--- want\n%s\n---\n%s", p.result.c_str(), q.result.c_str(), want[0].c_str(), want[1].c_str());
    CHECK(eq(t ? q.result : p.result, want[t]), "what is done with one archive does not depend on what is done with another"); sym_reach("independent");
}
}
#elif PROP == 32
// srcml() and the settings that go with it do what the calls on archives and units do
static const char *CN[] = {"to srcML", "to source", "names", "settings", "failures"};
static void put(const char *n, const S &s) { FILE *f = fopen(n, "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static S slurp(const char *n) { static char buf[20000]; long k = sym_slurp(n, buf, sizeof buf); return k < 0 ? S("\1none") : S(buf, k); }
struct Want { S fn, ts; bool hasfn, hasts; Want() : hasfn(false), hasts(false) {} };
// the same setting on the global archive and unit (g), or on an archive (a)
static int both(int k, const char *v, size_t t, srcml_archive *a, Want &w) { switch (k) {
    case 0: { int r = srcml_set_language(t & 1 ? "C" : "C++"), q = srcml_archive_set_language(a, t & 1 ? "C" : "C++"); return r == q; }
    case 1: w.fn = v; w.hasfn = true; return srcml_set_filename(v) == 0;
    case 2: { int r = srcml_set_url(v), q = srcml_archive_set_url(a, v); return r == q; }
    case 3: { int r = srcml_set_version(v), q = srcml_archive_set_version(a, v); return r == q; }
    case 4: w.ts = v; w.hasts = true; return srcml_set_timestamp(v) == 0;
    case 5: { size_t o = t & 63; int r = srcml_set_options(o), q = srcml_archive_set_options(a, o); return r == q; }
    case 6: { size_t o = (size_t)1 << t; o &= 63; int r = srcml_enable_option(o), q = srcml_archive_enable_option(a, o); return r == q; }
    case 7: { size_t o = (size_t)1 << t; o &= 63; int r = srcml_disable_option(o), q = srcml_archive_disable_option(a, o); return r == q; }
    case 8: { int r = srcml_set_tabstop(t), q = srcml_archive_set_tabstop(a, t); return r == q; }
    case 9: { int r = srcml_register_file_extension("zz", "Java"), q = srcml_archive_register_file_extension(a, "zz", "Java"); return r == q; }
    case 10: { int r = srcml_register_namespace("q", "http://n"), q = srcml_archive_register_namespace(a, "q", "http://n"); return r == q; }
    case 11: { int r = srcml_set_processing_instruction("t", v), q = srcml_archive_set_processing_instruction(a, "t", v); return r == q; }
    case 12: { int r = srcml_set_src_encoding("UTF-8"), q = srcml_archive_set_src_encoding(a, "UTF-8"); return r == q; }
    default: { int r = srcml_set_xml_encoding("ISO-8859-1"), q = srcml_archive_set_xml_encoding(a, "ISO-8859-1"); return r == q; } } }
static bool z(const char *a, const char *b) { return (!a && !b) || (a && b && strlen(a) == strlen(b) && !memcmp(a, b, strlen(a))); }
extern "C" {
const char *sym_config_name(int c) { return c < 5 ? CN[c] : 0; }
void sym_setup(void) {}
void sym_harness(int c) {
    char v[4] = "v<x"; unsigned char t; sym_make(v, 1); sym_make(&t, 1); sym_assume(v[0] == 'a' || v[0] == '"' || v[0] == (char)0xc3 || v[0] == '&'); if (v[0] == (char)0xc3) v[1] = (char)0xa9; sym_assume(t == 2 || t == 3 || t == 8);
    srcml_archive *a = srcml_archive_create(); Want w; int n = c == 2 ? 0 : TIER > 1 ? 3 : 2;
    S src = S("#if 0\n\tf(\"") + (v[0] == '"' ? '\'' : v[0] == (char)0xc3 ? 'e' : v[0]) + "\");\r\n#else\n// \xC3\xA9\nclass A {};\n#endif\n";
    int ks[3] = {0, 0, 0}; for (int i = 0; i < n; ++i) { ks[i] = sym_choice(i ? 14 : 15); if (i && TIER == 1 && ks[0] < 14) sym_assume(ks[i] == (ks[0] + 1) % 14 || ks[i] == (ks[0] + 5) % 14 || ks[i] == ks[0]); if (ks[i] < 14) CHECK(both(ks[i], v, t, a, w), "a setting is accepted as it is for an archive"); }
    if (c == 3) {
        CHECK(z(srcml_get_language(), srcml_archive_get_language(a)) && z(srcml_get_url(), srcml_archive_get_url(a)) && z(srcml_get_version(), srcml_archive_get_version(a)) && z(srcml_get_src_encoding(), srcml_archive_get_src_encoding(a)) && z(srcml_get_xml_encoding(), srcml_archive_get_xml_encoding(a)) && z(srcml_get_revision(), srcml_archive_get_revision(a)), "settings are those of an archive");
        CHECK(z(srcml_get_filename(), w.hasfn ? w.fn.c_str() : 0) && z(srcml_get_timestamp(), w.hasts ? w.ts.c_str() : 0), "settings are those of a unit");
        CHECK(srcml_get_options() == srcml_archive_get_options(a) && srcml_get_tabstop() == srcml_archive_get_tabstop(a) && srcml_get_namespace_size() == srcml_archive_get_namespace_size(a), "settings are those of an archive");
        for (size_t i = 0; i < srcml_get_namespace_size(); ++i) { CHECK(z(srcml_get_namespace_prefix(i), srcml_archive_get_namespace_prefix(a, i)) && z(srcml_get_namespace_uri(i), srcml_archive_get_namespace_uri(a, i)), "namespaces are those of an archive"); CHECK(z(srcml_get_prefix_from_uri(srcml_get_namespace_uri(i)), srcml_get_namespace_prefix(i)) && z(srcml_get_uri_from_prefix(srcml_get_namespace_prefix(i)), srcml_get_namespace_uri(i)), "lookups agree"); }
        CHECK(z(srcml_get_processing_instruction_target(), srcml_archive_get_processing_instruction_target(a)) && z(srcml_get_processing_instruction_data(), srcml_archive_get_processing_instruction_data(a)), "settings are those of an archive");
        CHECK(z(srcml_check_extension("a.zz"), srcml_archive_check_extension(a, "a.zz")) && z(srcml_check_extension("a.c"), srcml_archive_check_extension(a, "a.c")), "extensions are those of an archive");
        size_t e; sym_make(&e, sizeof e); size_t old = srcml_get_eol(); int rc = srcml_set_eol(e); CHECK((rc == 0) == (e <= SOURCE_OUTPUT_EOL_CRLF) && srcml_get_eol() == (rc == 0 ? e : old), "exactly the line endings that exist can be set");
    } else if (c == 0) {
        const char *in = sym_choice(2) ? "vfs_a.zz" : "vfs_a.c"; put(in, src); int rc = srcml(in, "vfs_o");
        const char *lang = srcml_archive_get_language(a); bool ok = srcml_archive_check_extension(a, in) != 0; CHECK((rc == 0) == ok, "a file is converted if its extension is known");
        if (ok) {
            srcml_archive_enable_solitary_unit(a); CHECK(srcml_archive_write_open_filename(a, "vfs_w") == 0, "opens"); srcml_unit *u = srcml_unit_create(a); srcml_unit_set_language(u, lang ? lang : srcml_archive_check_extension(a, in)); srcml_unit_set_filename(u, w.hasfn ? w.fn.c_str() : in); srcml_unit_set_version(u, srcml_archive_get_version(a)); if (w.hasts) srcml_unit_set_timestamp(u, w.ts.c_str());
            CHECK(srcml_unit_parse_filename(u, in) == 0, "parses"); CHECK(srcml_archive_write_unit(a, u) == 0, "written"); srcml_unit_free(u); srcml_archive_close(a);
            S x = slurp("vfs_o"), y = slurp("vfs_w"); sym_note("%s\nwant\n%s", x.c_str(), y.c_str()); CHECK(eq(x, y), "the document is the one the archive functions write");
            CHECK(srcml(in, "vfs_o2") == 0 && eq(slurp("vfs_o2"), y), "a second conversion gives the same");
        } else CHECK(srcml_error_string()[0] != 0, "a failure comes with a description");
    } else if (c == 1) {
        std::vector<S> in(1, src); put("vfs_d.xml", arch(in)); size_t e = sym_choice(4); CHECK(srcml_set_eol(e) == 0, "the line ending is set"); int rc = srcml("vfs_d.xml", "vfs_s.c"); CHECK(rc == 0, "a document is converted to source");
        CHECK(srcml_archive_read_open_filename(a, "vfs_d.xml") == 0, "opens"); srcml_unit *u = srcml_archive_read_unit(a); CHECK(u != 0, "unit"); srcml_unit_set_eol(u, e); CHECK(srcml_unit_unparse_filename(u, "vfs_w.c") == 0, "the source is written"); srcml_unit_free(u);
        S x = slurp("vfs_s.c"), y = slurp("vfs_w.c"); CHECK(eq(x, y), "the source is the one the unit functions write");
    } else if (c == 4) {
        // whatever fails is reported, and does not affect what is converted next
        int f = sym_choice(6); std::vector<S> in(1, src); S doc = arch(in); if (f == 5) doc.resize(doc.find("class")); if (f != 2) put("vfs_d.xml", doc); put("vfs_a.c", src);
        int rc = f == 0 ? srcml("vfs_n.c", "vfs_o") : f == 1 ? srcml("vfs_a.c", "/nonexistent/o") : f == 2 ? srcml("vfs_d.xml", "vfs_s.c") : f == 3 ? srcml("vfs_d.xml", "/nonexistent/s.c") : f == 4 ? srcml("vfs_d.xml", "/nonexistent/o.xml") : srcml("vfs_d.xml", "vfs_s.c");
        sym_note("%d gave %d", f, rc); CHECK(rc != 0, "a conversion that fails is reported");
        S want; { srcml_archive_enable_solitary_unit(a); CHECK(srcml_archive_write_open_filename(a, "vfs_w") == 0, "opens"); srcml_unit *u = srcml_unit_create(a); srcml_unit_set_filename(u, w.hasfn ? w.fn.c_str() : "vfs_a.c"); srcml_unit_set_version(u, srcml_archive_get_version(a)); if (w.hasts) srcml_unit_set_timestamp(u, w.ts.c_str()); CHECK(srcml_unit_parse_filename(u, "vfs_a.c") == 0 && srcml_archive_write_unit(a, u) == 0, "parses"); srcml_unit_free(u); srcml_archive_close(a); want = slurp("vfs_w"); }
        CHECK(srcml("vfs_a.c", "vfs_o") == 0, "a conversion after one that failed"); S x = slurp("vfs_o"); sym_note("%s\nwant\n%s", x.c_str(), want.c_str()); CHECK(eq(x, want), "the document after a failure is the one the archive functions write");
    } else {
        // which names are taken for srcML: exactly those that end in .xml or .srcml
        static const char *NM[] = {"a.xml", "a.srcml", ".XML", ".sRcMl", "xml", "srcml", "ml"}; S nm = NM[sym_choice(7)]; char h0; sym_make(&h0, 1); sym_assume(h0 == '.' || h0 == 'x' || h0 == 'M' || h0 == 'l' || h0 == 's' || h0 == 'R' || h0 == 'c' || h0 == 'C' || h0 == 'y'); size_t at = sym_choice(7); if (at > nm.size()) sym_assume(0); if (at < nm.size()) { if (sym_choice(2)) nm[at] = h0; else nm.insert(at, 1, h0); }
        S name = S(sym_choice(2) ? "vfs_" : "@") + nm, low; for (char h : name) low += h >= 'A' && h <= 'Z' ? (char)(h + 32) : h; size_t L = low.size(); bool xml = (L > 4 && low.compare(L - 4, 4, ".xml") == 0) || (L > 6 && low.compare(L - 6, 6, ".srcml") == 0); if (srcml_check_extension(name.c_str())) sym_assume(0);
        std::vector<S> in(1, src); put(name.c_str(), arch(in)); int rc = srcml(name.c_str(), "vfs_s.c"); CHECK((rc == 0) == xml, "a document is recognised by its extension"); if (!xml) CHECK(srcml_error_string()[0] != 0, "a failure comes with a description");
    }
    srcml_archive_free(a); sym_reach("converted");
}
}
#endif

// The command-line client from a document to the source files it writes (C34).
#include "h.hpp"
#include "minilibarchive.hpp"
#include <srcml_options.hpp>
#include <srcml_utilities.hpp>
#include <input_curl.hpp>
#include <input_file.hpp>
#include <input_archive.hpp>
#include <srcml_cli.hpp>
#include <ParserTest.hpp>
#include <transform_srcml.hpp>
#include <SRCMLStatus.hpp>
#include <iostream>
#include <fcntl.h>
#include <curl/curl.h>
#include <srcml_display_metadata.hpp>
#ifndef TIER
#define TIER 1
#endif
static bool eq(const S &a, const S &b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size()); }
// parts of the client that are not part of this: a test mode, transformations, the network, the pretty formats
void ParserTest::entry(const ParseRequest *, srcml_archive *, srcml_unit *) {}
void ParserTest::report(srcml_archive *) {}
int apply_xslt(srcml_archive *, const S &) { return 1; }
int apply_xpath(srcml_archive *, srcml_archive *, const S &, const std::pair<boost::optional<element>, boost::optional<attribute> > &, const std::map<S, S> &) { return 1; }
int apply_relaxng(srcml_archive *, const S &) { return 1; }
bool curl_supported(const S &) { return false; }
int input_curl(srcml_input_src &) { return 0; }
bool getCurlErrors() { return false; }
void input_file(srcml_input_src &) {}
int input_archive(const srcml_input_src &) { return -1; }
extern "C" int stat(const char *p, struct stat *s) { memset(s, 0, sizeof *s); bool d = !strcmp(p, "vfs_d") || !strcmp(p, "vfs_d/") || !strcmp(p, "."); s->st_mode = d ? S_IFDIR : S_IFREG; return 0; }
extern "C" const char *archive_version_string(void) { return "1"; }
extern "C" int archive_write_set_format_raw(struct archive *) { MLOG += "raw;"; return ARCHIVE_OK; }
extern "C" curl_version_info_data *curl_version_info(CURLversion) { return 0; }
void srcml_display_metadata(const srcml_request_t &, const srcml_input_t &, const srcml_output_dest &) { CHECK(0, "nothing is displayed when source is asked for"); }
// the end of the program, and files outside of the directory of the test are only recorded
static void client_exit(int);
static S outside;
static int unparse_filename(srcml_unit *u, const char *f) { if (strncmp(f, "vfs_", 4)) { if (strncmp(f, "none/", 5)) outside += S(f) + ";"; return SRCML_STATUS_IO_ERROR; } return srcml_unit_unparse_filename(u, f); }
static srcml_request_t REQ;
srcml_request_t parseCLI11(int, char **) { return REQ; }
#define exit client_exit
#define pipe sym_pipe
#include <compress_srcml.cpp>
#include <srcml_pipe.cpp>
#include <srcml_execute.cpp>
#define srcml_unit_unparse_filename unparse_filename
#include <src_output_filesystem.cpp>
#include <src_output_libarchive.cpp>
#include <create_src.cpp>
#undef srcml_unit_unparse_filename
#define main client_main
#include <srcml.cpp>
#undef main
#undef pipe
#undef exit

#define NSX "xmlns=\"http://www.srcML.org/srcML/src\""
static const char *DOC[] = {
    "<unit " NSX " revision=\"1.0.0\" language=\"C\" filename=\"vfs_s.c\"><expr_stmt><expr><name>x@</name></expr>;</expr_stmt>\n\n</unit>\n",
    "<unit " NSX " revision=\"1.0.0\"><unit revision=\"1.0.0\" language=\"C++\" filename=\"vfs_s/a.cpp\">a@\xc3\xa9\n</unit><unit revision=\"1.0.0\" language=\"Java\">b\n\nc</unit><unit revision=\"1.0.0\" language=\"C#\" filename=\"vfs_s/t/c.cs\"></unit></unit>",
    "<unit " NSX " revision=\"1.0.0\"><unit revision=\"1.0.0\" filename=\"vfs_s/a.c\">d@</unit><unit revision=\"1.0.0\">e</unit></unit>",
    "<unit " NSX " xmlns:diff=\"http://www.srcML.org/srcDiff\" revision=\"1.0.0\" language=\"C\" filename=\"vfs_v.c|vfs_w.c\">i<diff:delete>d@</diff:delete><diff:insert>\n</diff:insert>s</unit>"};
static const char *DN[] = {"vfs_0.xml", "vfs_1.xml", "vfs_2.xml", "vfs_3.xml"}; static const int NU[] = {1, 3, 2, 1};
struct Src { S name, lang, text; bool has, hasl; };
static std::vector<Src> units(int d, int revision, int eol, const S &enc) {
    std::vector<Src> r; srcml_archive *a = srcml_archive_create();
    if (revision >= 0) srcml_archive_set_srcdiff_revision(a, revision);
    if (enc.size()) srcml_archive_set_src_encoding(a, enc.c_str());
    srcml_archive_read_open_filename(a, DN[d]);
    while (srcml_unit *u = srcml_archive_read_unit(a)) {
        Src s; s.has = srcml_unit_get_filename(u); if (s.has) s.name = srcml_unit_get_filename(u); s.hasl = srcml_unit_get_language(u); if (s.hasl) s.lang = srcml_unit_get_language(u);
        if (eol >= 0) srcml_unit_set_eol(u, eol);
        char *p; size_t n; if (!srcml_unit_unparse_memory(u, &p, &n)) { s.text = S(p, n); srcml_memory_free(p); }
        r.push_back(s); srcml_unit_free(u);
    }
    srcml_archive_close(a); srcml_archive_free(a); return r;
}
static S slurp(const char *n) { static char b[1 << 16]; long k = sym_slurp(n, b, sizeof b); return k < 0 ? S("\1no file") : S(b, k); }
static const S NONE = "\1no file";
struct W { S name, text; };
// what is to be written: files, entries of an archive, the exit status
static std::vector<W> files, entries; static S formats; static int status, base; static bool unnamed;     // a unit without a name is warned about
static void judge(int code) {
    coro_on(1, 0, 0);
    sym_note("exit %d, expected %d", code, status);
    CHECK(outside.empty(), "nothing is written elsewhere");
    if (!unnamed) CHECK(!code == !status, "the exit status tells whether the source was written");
    for (size_t i = 0; i < files.size(); ++i) { S got = slurp(files[i].name.c_str()); sym_note("---%s\n%s\n---want\n%s", files[i].name.c_str(), got.c_str(), files[i].text.c_str()); CHECK(eq(got, files[i].text), "a file is the source of its unit"); sym_out(got.data(), got.size()); }
    sym_note("%s", MLOG.c_str());
    CHECK(MOUT.size() == entries.size(), "an archive has an entry for each unit");
    for (size_t i = 0; i < MOUT.size(); ++i) {
        sym_note("---%s\n%s\n---want %s\n%s", MOUT[i].path.c_str(), MOUT[i].data.c_str(), entries[i].name.c_str(), entries[i].text.c_str());
        CHECK(eq(MOUT[i].path, entries[i].name) && MOUT[i].type == AE_IFREG, "an entry has the name of its unit");
        CHECK(eq(MOUT[i].data, entries[i].text), "an entry is the source of its unit"); sym_out(MOUT[i].data.data(), MOUT[i].data.size());
    }
    if (!status) CHECK(formats.empty() || eq(MLOG, formats), "the format is that of the extensions");
}
static void client_exit(int code) { judge(code); sym_reach("extracted"); sym_assume(0); }
static S ext(const S &l) { return l == "C" ? ".c" : l == "C++" ? ".cpp" : l == "Java" ? ".java" : l == "C#" ? ".cs" : ""; }
static srcml_request_t request() { srcml_request_t r; r.markup_options = 0; r.tabs = 8; r.max_threads = 2; return r; }
extern "C" {
static const char *CN[] = {"standard output", "a file", "an archive", "compressed", "a compressed archive", "a directory", "source to source", "several documents", "source to source under schedules", "compressed under schedules"};
const char *sym_config_name(int c) { return c < 10 ? CN[c] : 0; }
void sym_setup(void) { std::cerr.setstate(std::ios::failbit); std::clog.setstate(std::ios::failbit); }
void sym_harness(int c) {
    bool sched = c > 7; if (sched) c = c == 8 ? 6 : 3;
    static S text[4]; srcml_request_t r = request(); std::vector<Src> us; S out;
    unsigned char x = sched ? 'x' : sym_byte(); sym_assume((x >= 32 && x < 127 && !(x == '<') && !(x == '&')) || x == '\n');
    for (int i = 0; i < 4; ++i) { text[i] = DOC[i]; text[i][text[i].find('@')] = x; sym_file(DN[i], text[i].data(), text[i].size()); }
    int eol = -1, rev = -1; S enc;
    if (c == 6) {
        // what is parsed is what comes back
        text[0] = "a;\n"; text[0] += x; sym_file("vfs_a.c", text[0].data(), text[0].size()); madd("vfs_a.c", ARCHIVE_FORMAT_RAW); mentry(MA.back(), "data", text[0]);
        sym_file("vfs_b.cpp", "b", 1); madd("vfs_b.cpp", ARCHIVE_FORMAT_RAW); mentry(MA.back(), "data", "b");
        int n = sched ? 1 : 1 + sym_choice(2); r.command = SRCML_COMMAND_SRC;
        r.input_sources.push_back(srcml_input_src("vfs_a.c")); if (n > 1) r.input_sources.push_back(srcml_input_src("vfs_b.cpp"));
        out = text[0]; if (n > 1) { out += S(1, 0); out += "b"; }
    } else {
        int n = c == 7 ? 2 : 1, d = sched ? 2 : sym_choice(4), e = 2; if (c == 7 && TIER > 1) e = sym_choice(4); else if (c == 7) sym_assume(d < 2);
        if (d == 3 && sym_choice(2)) { rev = sym_choice(2); r.revision = (size_t)rev; }
        if (!(d == 3) && !sched) { eol = sym_choice(5) - 1; if (eol >= 0) { static const int E[] = {SOURCE_OUTPUT_EOL_AUTO, SOURCE_OUTPUT_EOL_LF, SOURCE_OUTPUT_EOL_CR, SOURCE_OUTPUT_EOL_CRLF}; eol = E[eol]; r.eol = eol; } }
        if (c < 2 && sym_choice(2)) { enc = "UTF-8"; r.src_encoding = enc; }
        us = units(d, rev, eol, enc);
        r.input_sources.push_back(srcml_input_src(DN[d]));
        if (n > 1) { std::vector<Src> v = units(e, rev, eol, enc); us.insert(us.end(), v.begin(), v.end()); r.input_sources.push_back(srcml_input_src(DN[e])); }
        if (c < 2 || c == 3) {
            int u = sched ? 0 : sym_choice(NU[d] + 2); r.unit = u;
            if (u) { if (u > (int)us.size()) { status = 1; us.clear(); } else us = std::vector<Src>(1, us[u - 1]); }
            else if (c == 1 && us.size()) us.resize(1);
        }
        for (size_t i = 0; i < us.size(); ++i) { if (i) out += S(1, 0); out += us[i].text; }
    }
    int fd = -1;
    if (c == 0 && sym_choice(2)) { r.output_filename = S("stdout://-"); fd = open("vfs_3.xml", O_RDONLY); r.output_filename.fd = fd; if (!out.empty()) status = 1; }
    else if (c == 0 || c == 6) { r.output_filename = S("stdout://-"); fd = open("vfs_out", O_WRONLY | O_CREAT | O_TRUNC, 0600); r.output_filename.fd = fd; W w; w.name = "vfs_out"; w.text = out; files.push_back(w); }
    if (c == 1) { bool bad = sym_choice(2); W w; w.name = bad ? "vfs_o.c" : "vfs_o.c"; w.text = status ? NONE : out; if (bad) { r.output_filename = srcml_output_dest("none/x.c"); w.text = NONE; status = 1; } else r.output_filename = srcml_output_dest("vfs_o.c"); files.push_back(w); }
    if (c == 3) { r.output_filename = srcml_output_dest("vfs_o.c.gz"); formats = "raw;archive_write_add_filter_gzip;open vfs_o.c.gz;"; W w; w.name = "test"; w.text = out; entries.push_back(w); }
    if (c == 2 || c == 4 || c == 7) {
        int k = sym_choice(3), z = c == 4; static const char *O[] = {"vfs_o.zip", "vfs_o.tar", "vfs_o.cpio", "vfs_o.tgz", "vfs_o.tar.gz", "vfs_o.cpio.bz2"};
        static const char *F[] = {"archive_write_set_format_zip;", "archive_write_set_format_pax_restricted;", "archive_write_set_format_cpio;", "archive_write_set_format_pax_restricted;archive_write_add_filter_gzip;", "archive_write_set_format_pax_restricted;archive_write_add_filter_gzip;", "archive_write_set_format_cpio;archive_write_add_filter_bzip2;"};
        r.output_filename = srcml_output_dest(O[k + 3 * z]); formats = S(F[k + 3 * z]) + "open " + O[k + 3 * z] + ";";
        if (c == 2 && sym_choice(2)) { MFAIL = 0; us.clear(); status = 1; }
        int from = 0, second = c == 7 ? (int)us.size() - NU[r.input_sources[1].filename == S("file://") + DN[0] ? 0 : r.input_sources[1].filename == S("file://") + DN[1] ? 1 : r.input_sources[1].filename == S("file://") + DN[2] ? 2 : 3] : 99;
        for (size_t i = 0; i < us.size(); ++i) { if ((int)i == second) from = second; W w; char b[32]; snprintf(b, sizeof b, "%d", (int)i + 1 - from); if (!us[i].has) unnamed = true; w.name = us[i].has ? us[i].name : S("srcml_unit_") + b + ext(us[i].lang); w.text = us[i].text; entries.push_back(w); }
    }
    if (c == 5) {
        static const char *D[] = {"vfs_d", "vfs_d/", ".", "./", "none"}; int k = sym_choice(5); r.command = SRCML_COMMAND_TO_DIRECTORY | (sym_choice(2) ? SRCML_COMMAND_VERBOSE : 0); r.output_filename = srcml_output_dest(D[k]);
        for (size_t i = 0; i < us.size(); ++i) if (us[i].has) { if (k == 4) { status = 1; continue; } W w; w.name = (k < 2 ? S("vfs_d/") : S()) + us[i].name; w.text = us[i].text; files.push_back(w); }
    }
    REQ = r;
    coro_on(1, 0, 0);
    base = sym_openfds() - (fd >= 0); int used = MOPEN;
    char *argv[] = {(char *)"srcml", 0};
    int at[4], who[4], del = sched ? TIER : 0, code;
    for (int k = 0; k <= del; ++k) {       // with k switches elsewhere than in a run to completion
        if (sched) coro_delay(k, at, who);
        if (k) { MOUT.clear(); MLOG = ""; if (c == 6) { fd = open("vfs_out", O_WRONLY | O_CREAT | O_TRUNC, 0600); REQ.output_filename.fd = fd; } }
        code = client_main(1, argv);
        CHECK(coro_alive() == 0, "no thread is left");
        if (k < del) { int m = coro_points(), from = k ? at[k - 1] + 1 : 0; at[k] = from + sym_choice(m - from > 0 ? m - from : 1); who[k] = 1 + sym_choice(3); coro_on(1, 0, 0); }
    }
    judge(code);
    CHECK(sym_openfds() - (c == 3) - (c == 3 ? del : 0) == base && MOPEN == used, "what was opened is closed");   // compression leaves its input to the end of the program
    sym_reach("extracted");
}
}

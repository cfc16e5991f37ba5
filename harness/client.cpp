// The command-line client: names of inputs (C24).
#include "h.hpp"
#include <srcml_input_src.hpp>
#include <src_prefix.hpp>
#include <src_archive.hpp>
#include <tuple>
#ifndef TIER
#define TIER 1
#endif
static bool eq(const S &a, const S &b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size()); }
static bool ends(const S &s, const S &e) { return s.size() >= e.size() && !memcmp(s.data() + s.size() - e.size(), e.data(), e.size()); }
// what is done to libarchive and to files is recorded
static S did; static int kind_of_file;
struct archive { int x; };
#define REC(n) extern "C" int n(struct archive *) { did += #n ";"; return 0; }
REC(archive_write_set_format_7zip) REC(archive_write_set_format_ar_bsd) REC(archive_write_set_format_cpio) REC(archive_write_set_format_iso9660) REC(archive_write_set_format_mtree) REC(archive_write_set_format_pax) REC(archive_write_set_format_shar) REC(archive_write_set_format_pax_restricted) REC(archive_write_set_format_zip)
REC(archive_write_add_filter_bzip2) REC(archive_write_add_filter_gzip) REC(archive_write_add_filter_lzma) REC(archive_write_add_filter_compress) REC(archive_write_add_filter_xz)
extern "C" void archive_set_error(struct archive *, int, const char *, ...) { did += "error;"; }
extern "C" ssize_t archive_read_data(struct archive *, void *, size_t) { return 0; }
REC(archive_read_close) REC(archive_read_free)
extern "C" int stat(const char *p, struct stat *s) { did = p; memset(s, 0, sizeof *s); s->st_mode = kind_of_file == 2 ? S_IFDIR : S_IFREG; return kind_of_file ? 0 : -1; }
extern "C" {
int srcml_archive_read_open_io(struct srcml_archive *, void *c, int (*)(void *, char *, int), int (*)(void *)) { did = "io"; return 7; }
int srcml_archive_read_open_fd(struct srcml_archive *, int fd) { did = "fd"; return 7; }
int srcml_archive_read_open_FILE(struct srcml_archive *, FILE *) { did = "FILE"; return 7; }
int srcml_archive_read_open_filename(struct srcml_archive *, const char *f) { did = S("name ") + f; return 7; }
}
static const char *COMP[] = {".bz2", ".gz", ".lz", ".lzma", ".taz", ".tb2", ".tbz2", ".tgz", ".tlz", ".txz", ".xar", ".xz", ".z"};
static const char *ARCH[] = {".7z", ".ar", ".cpio", ".iso", ".mtree", ".pax", ".shar", ".tar", ".taz", ".tb2", ".tbz", ".tbz2", ".tgz", ".tlz", ".txz", ".xar", ".zip"};
#define N(a) (int)(sizeof a / sizeof *a)
static bool in(const char **t, int n, const S &e) { for (int i = 0; i < n; ++i) if (eq(e, t[i])) return true; return false; }
static size_t find3(const S &s) { for (size_t i = 0; i + 3 <= s.size(); ++i) if (s[i] == ':' && s[i + 1] == '/' && s[i + 2] == '/') return i; return S::npos; }
static size_t last(const S &s, char c) { for (size_t i = s.size(); i; --i) if (s[i - 1] == c) return i - 1; return S::npos; }
static const char *PROTO[] = {"", "file://", "http://", "text://", "filelist://", "stdin://"};
static const char *BASE[] = {"", "a", "-", "/dev/stdin", "d/b.c", "http:https:x"};
static const char *EXT[] = {"", ".xml", ".srcml", ".cpp", ".gz", ".tar", ".tgz", ".zip", "/", "?q.gz", ".tbz"};
extern "C" {
static const char *CN[] = {"prefix", "name and extensions", "arbitrary extension", "opened", "name with an arbitrary byte"};
const char *sym_config_name(int c) { return c < 5 ? CN[c] : 0; }
void sym_setup(void) {}
void sym_harness(int c) {
    if (c == 0 || c == 1 || c == 4) {
        S s = PROTO[sym_choice(N(PROTO))];
        if (c == 0) { int n = sym_choice(TIER > 1 ? 7 : 6); for (int i = 0; i < n; ++i) { char b = (char)sym_byte(); sym_assume(b != 0); s += b; } }
        else {
            s += BASE[sym_choice(N(BASE))]; s += EXT[sym_choice(N(EXT))]; if (c == 1 || TIER > 1) s += EXT[sym_choice(N(EXT))]; if (c == 1 && TIER > 1) s += EXT[sym_choice(N(EXT))];
            if (c == 4) { char b = (char)sym_byte(); sym_assume(b != 0); s.insert(sym_choice((int)s.size() + 1), 1, b); }
            else if (s.compare(0, 4, "http") && s.compare(0, 4, "text")) kind_of_file = sym_choice(3);
        }
        size_t at = find3(s);
        S proto, res; bool dash = eq(s, "-") || eq(s, "/dev/stdin");
        if (at != S::npos) { proto = s.substr(0, at); res = s.substr(at + 3); } else if (dash) { proto = "stdin"; res = "-"; } else { proto = "file"; res = s; }
        S full = src_prefix_add_uri(s);
        CHECK(eq(full, proto + "://" + res), "a name without protocol is that of a file, or the standard input");
        CHECK(eq(src_prefix_add_uri(full), full), "a name with a protocol is left as it is");
        CHECK(eq(src_prefix_add_uri("p", s), "p://" + s), "a protocol is put in front");
        S p, r; std::tie(p, r) = src_prefix_split_uri(full);
        CHECK(eq(p, proto) && eq(r, res), "a name is split at the first separator");
        CHECK(eq(src_prefix_protocol(full), proto) && eq(src_prefix_resource(full), res), "the parts of a name are those it is split into");
        std::tie(p, r) = src_prefix_split_uri(s);
        CHECK(eq(p, at == S::npos ? S() : proto) && eq(r, at == S::npos ? s : res) && eq(src_prefix_protocol(s), p) && eq(src_prefix_resource(s), r), "a name without separator has no protocol");
        srcml_input_src i(s);
        if (!(proto == "text") && !(proto == "filelist") && !(proto == "stdin")) { size_t q = res.find('?'); if (q != S::npos) res.resize(q); }
        CHECK(eq(i.filename, full) && eq(i.protocol, proto), "the protocol of an input");
        CHECK(eq(i.resource, res), "the resource of an input is without its query");
        bool file = proto == "file", text = proto == "text";
        CHECK(i.exists == (file && kind_of_file) && i.isdirectory == (file && kind_of_file == 2), "whether an input exists and is a directory is looked up for files");
        CHECK(i.isdirectoryform == ends(res, "/"), "the form of a directory");
        S plain, ext, cs, as, want_c, want_a;
        if (!i.isdirectory && !text) {
            plain = res;
            for (;;) { size_t d = last(plain, '.'); ext = d == S::npos ? S() : plain.substr(d); bool ic = in(COMP, N(COMP), ext), ia = in(ARCH, N(ARCH), ext); if (!ic && !ia) break; if (ic) want_c += ext + ";"; if (ia) want_a += ext + ";"; plain.resize(d); }
        }
        for (std::list<S>::iterator k = i.compressions.begin(); k != i.compressions.end(); ++k) cs += *k + ";";
        for (std::list<S>::iterator k = i.archives.begin(); k != i.archives.end(); ++k) as += *k + ";";
        CHECK(eq(cs, want_c) && eq(as, want_a), "the compressions and archive formats are those of the extensions, from the last to the first");
        CHECK(eq(i.plainfile, plain) && eq(i.extension, ext), "the extension is the last one of another kind");
        CHECK(i.state == (text ? SRC : eq(res, "-") ? INDETERMINATE : eq(ext, ".xml") || eq(ext, ".srcml") ? SRCML : SRC), "an input is a document exactly for the extensions of documents");
        CHECK(i.fd ? *i.fd == (proto == "stdin" ? 0 : 1) && (proto == "stdin" || proto == "stdout") : !(proto == "stdin") && !(proto == "stdout"), "only the standard streams have a descriptor");
    } else if (c == 2) {
        const char **t; S e; int k = sym_choice(3);
        if (k == 2) { int n = sym_choice(5); for (int i = 0; i < n; ++i) e += (char)sym_byte(); } else { t = k ? ARCH : COMP; e = t[sym_choice(k ? N(ARCH) : N(COMP))]; if (sym_choice(2)) { int at = sym_choice((int)e.size()); e[at] = (char)sym_byte(); } }
        for (size_t i = 0; i < e.size(); ++i) sym_assume(e[i] != 0);
        bool ia = in(ARCH, N(ARCH), e), ic = in(COMP, N(COMP), e);
        CHECK(is_archive(e) == ia && is_compressed(e) == ic, "exactly the known extensions are archives or compressed");
        struct archive a; did = "";
        int r = archive_write_set_format_by_extension(&a, e.c_str());
        CHECK(ia ? r == 0 && eq(did, eq(e, ".7z") ? "archive_write_set_format_7zip;" : eq(e, ".ar") ? "archive_write_set_format_ar_bsd;" : eq(e, ".cpio") ? "archive_write_set_format_cpio;" : eq(e, ".iso") ? "archive_write_set_format_iso9660;" : eq(e, ".mtree") ? "archive_write_set_format_mtree;" : eq(e, ".pax") ? "archive_write_set_format_pax;" : eq(e, ".shar") ? "archive_write_set_format_shar;" : eq(e, ".zip") ? "archive_write_set_format_zip;" : "archive_write_set_format_pax_restricted;") : r < 0 && eq(did, "error;"), "the format of an archive is that of its extension");
        did = ""; r = archive_write_set_compression_by_extension(&a, e.c_str());
        CHECK(ic ? r == 0 && eq(did, eq(e, ".bz2") || eq(e, ".tb2") || eq(e, ".tbz2") ? "archive_write_add_filter_bzip2;" : eq(e, ".gz") || eq(e, ".tgz") ? "archive_write_add_filter_gzip;" : eq(e, ".lz") || eq(e, ".lzma") || eq(e, ".tlz") ? "archive_write_add_filter_lzma;" : eq(e, ".taz") || eq(e, ".z") ? "archive_write_add_filter_compress;" : "archive_write_add_filter_xz;") : r < 0 && eq(did, "error;"), "the compression is that of the extension");
    } else {
        S s = PROTO[sym_choice(3)]; s += "x.xml"; int k = sym_choice(4); FILE *f = stdout; struct archive a;
        srcml_input_src i(s), j(s, 5), l(6);
        CHECK(j.fd && *j.fd == 5 && eq(j.resource, i.resource) && j.state == i.state && eq(j.filename, i.filename), "an input with a descriptor keeps its name");
        CHECK(l.fd && *l.fd == 6 && eq(l.resource, "-"), "an input of a descriptor only");
        if (k == 1) i = 5; else if (k == 2) i = f; else if (k == 3) i.arch = &a;
        int r = srcml_archive_read_open(0, i);
        CHECK(r == 7 && eq(did, k == 0 ? S("name ") + "x.xml" : k == 1 ? "fd" : k == 2 ? "FILE" : "io"), "a document is opened from where the input is");
    }
    sym_reach("client");
}
}

// Stands in for libarchive, whose code is not available: files, archives and directories come from a table, what is written is recorded.
#ifndef MINILIBARCHIVE
#define MINILIBARCHIVE
#include <archive.h>
#include <archive_entry.h>
#include <string.h>
#include <sys/stat.h>
#include <string>
#include <vector>
struct archive_entry { std::string path, data; int type, perm; long mtime; long size; bool sized; archive_entry() : type(AE_IFREG), perm(0), mtime(0), size(0), sized(true) {} };
struct MFile { std::string name; int format; std::vector<archive_entry> e; };
static std::vector<MFile> MA; static size_t MBLOCK = 3;
static std::string MLOG;             // directories made, formats chosen
static std::vector<archive_entry> MOUT;   // entries written
static int MOPEN, MFAIL = -1;          // archives and entries in use; the header that fails
struct archive { int kind, f, i; size_t pos; std::string pend; archive_entry cur; archive(int k) : kind(k), f(-1), i(-1), pos(0) { ++MOPEN; } ~archive() { --MOPEN; } };
static MFile *mfind(const std::string &n) { for (size_t i = 0; i < MA.size(); ++i) if (MA[i].name.size() == n.size() && !memcmp(MA[i].name.data(), n.data(), n.size())) return &MA[i]; return 0; }
static MFile &madd(const std::string &n, int format) { MFile f; f.name = n; f.format = format; MA.push_back(f); return MA.back(); }
static void mentry(MFile &f, const std::string &path, const std::string &data, int type = AE_IFREG, bool sized = true, long mtime = 0) { archive_entry e; e.path = path; e.data = data; e.type = type; e.size = (long)data.size(); e.sized = sized; e.mtime = mtime; f.e.push_back(e); }
static int mopen(struct archive *a, const std::string &n) { MFile *f = mfind(n); if (!f) return ARCHIVE_FATAL; a->f = (int)(f - &MA[0]); return ARCHIVE_OK; }
extern "C" {
struct archive *archive_read_new(void) { return new archive(0); }
#define MOK(n) int n(struct archive *) { return ARCHIVE_OK; }
MOK(archive_read_support_format_ar) MOK(archive_read_support_format_cpio) MOK(archive_read_support_format_gnutar) MOK(archive_read_support_format_iso9660) MOK(archive_read_support_format_tar) MOK(archive_read_support_format_xar) MOK(archive_read_support_format_zip) MOK(archive_read_support_format_raw) MOK(archive_read_support_format_empty) MOK(archive_read_support_format_7zip) MOK(archive_read_support_format_cab) MOK(archive_read_support_format_lha) MOK(archive_read_support_format_rar) MOK(archive_read_support_filter_all)
int archive_read_open_filename(struct archive *a, const char *n, size_t) { return mopen(a, n); }
int archive_read_open_fd(struct archive *a, int fd, size_t) { char b[16]; snprintf(b, sizeof b, "fd %d", fd); return mopen(a, b); }
int archive_read_open_FILE(struct archive *a, FILE *) { return mopen(a, "FILE"); }
int archive_format(struct archive *a) { return a->f < 0 ? 0 : MA[a->f].format; }
static int mnext(struct archive *a) {
    if (a->f < 0) return ARCHIVE_FATAL;
    MFile &f = MA[a->f];
    for (;;) {
        if (a->i + 1 >= (int)f.e.size()) return ARCHIVE_EOF;
        ++a->i; a->pos = 0;
        std::string &p = f.e[a->i].path;
        if (!a->pend.empty() && p.size() >= a->pend.size() && !memcmp(p.data(), a->pend.data(), a->pend.size())) continue;
        a->pend.clear(); if (a->kind == 1 && f.e[a->i].type == AE_IFDIR) a->pend = p + "/";
        return ARCHIVE_OK;
    }
}
int archive_read_next_header(struct archive *a, struct archive_entry **e) { int r = mnext(a); if (r == ARCHIVE_OK) a->cur = MA[a->f].e[a->i]; *e = &a->cur; return r; }
int archive_read_next_header2(struct archive *a, struct archive_entry *e) { int r = mnext(a); if (r == ARCHIVE_OK) *e = MA[a->f].e[a->i]; return r; }
int archive_read_data_block(struct archive *a, const void **b, size_t *n, la_int64_t *o) {
    const std::string &d = MA[a->f].e[a->i].data;
    if (a->pos >= d.size()) { *n = 0; return ARCHIVE_EOF; }
    *b = d.data() + a->pos; *o = (long)a->pos; *n = d.size() - a->pos < MBLOCK ? d.size() - a->pos : MBLOCK; a->pos += *n; return ARCHIVE_OK;
}
ssize_t archive_read_data(struct archive *a, void *b, size_t n) { const std::string &d = MA[a->f].e[a->i].data; size_t k = d.size() - a->pos < n ? d.size() - a->pos : n; memcpy(b, d.data() + a->pos, k); a->pos += k; return (ssize_t)k; }
int archive_read_close(struct archive *) { return ARCHIVE_OK; }
int archive_read_free(struct archive *a) { delete a; return ARCHIVE_OK; }
struct archive *archive_read_disk_new(void) { return new archive(1); }
int archive_read_disk_set_behavior(struct archive *, int) { return ARCHIVE_OK; }
int archive_read_disk_open(struct archive *a, const char *n) { return mopen(a, n); }
int archive_read_disk_descend(struct archive *a) { a->pend.clear(); return ARCHIVE_OK; }
struct archive *archive_write_new(void) { return new archive(2); }
struct archive *archive_write_disk_new(void) { return new archive(3); }
int archive_write_open_fd(struct archive *, int) { MLOG += "open fd;"; return ARCHIVE_OK; }
int archive_write_open_filename(struct archive *, const char *n) { MLOG += std::string("open ") + n + ";"; return ARCHIVE_OK; }
int archive_write_header(struct archive *a, struct archive_entry *e) {
    if (a->kind == 3) { if (sym_concrete() && !e->path.compare(0, 4, "vfs_")) for (size_t i = 1; i <= e->path.size(); ++i) if (i == e->path.size() || e->path[i] == '/') mkdir(e->path.substr(0, i).c_str(), 0755); MLOG += "mkdir " + e->path + ";"; return ARCHIVE_OK; }
    if ((int)MOUT.size() == MFAIL) return ARCHIVE_FAILED;
    MOUT.push_back(*e); MOUT.back().data.clear(); return ARCHIVE_OK;
}
ssize_t archive_write_data(struct archive *, const void *b, size_t n) { if (MOUT.empty()) return -1; MOUT.back().data.append((const char *)b, n); return (ssize_t)n; }
int archive_write_finish_entry(struct archive *) { return ARCHIVE_OK; }
int archive_write_close(struct archive *) { return ARCHIVE_OK; }
int archive_write_free(struct archive *a) { delete a; return ARCHIVE_OK; }
void archive_set_error(struct archive *, int, const char *, ...) {}
#define MSET(n) int n(struct archive *) { MLOG += #n ";"; return ARCHIVE_OK; }
MSET(archive_write_set_format_7zip) MSET(archive_write_set_format_ar_bsd) MSET(archive_write_set_format_cpio) MSET(archive_write_set_format_iso9660) MSET(archive_write_set_format_mtree) MSET(archive_write_set_format_pax) MSET(archive_write_set_format_shar) MSET(archive_write_set_format_pax_restricted) MSET(archive_write_set_format_zip)
MSET(archive_write_add_filter_bzip2) MSET(archive_write_add_filter_gzip) MSET(archive_write_add_filter_lzma) MSET(archive_write_add_filter_compress) MSET(archive_write_add_filter_xz)
struct archive_entry *archive_entry_new(void) { ++MOPEN; return new archive_entry; }
void archive_entry_free(struct archive_entry *e) { --MOPEN; delete e; }
const char *archive_entry_pathname(struct archive_entry *e) { return e->path.c_str(); }
__LA_MODE_T archive_entry_filetype(struct archive_entry *e) { return e->type; }
time_t archive_entry_mtime(struct archive_entry *e) { return e->mtime; }
la_int64_t archive_entry_size(struct archive_entry *e) { return e->size; }
int archive_entry_size_is_set(struct archive_entry *e) { return e->sized; }
void archive_entry_set_pathname(struct archive_entry *e, const char *p) { e->path = p; }
void archive_entry_set_filetype(struct archive_entry *e, unsigned t) { e->type = (int)t; }
void archive_entry_set_perm(struct archive_entry *e, __LA_MODE_T p) { e->perm = p; }
void archive_entry_set_size(struct archive_entry *e, la_int64_t n) { e->size = n; e->sized = true; }
void archive_entry_set_atime(struct archive_entry *, time_t, long) {}
void archive_entry_set_ctime(struct archive_entry *, time_t, long) {}
void archive_entry_set_mtime(struct archive_entry *, time_t, long) {}
}
#endif

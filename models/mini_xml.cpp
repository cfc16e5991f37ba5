// Model of the parts of libxml2 2.9 (a binary here) the library drives: buffers, the text writer, and the SAX2 parser
// with the observable buffer positions (ctxt->input->cur/base/consumed) the reader depends on.
#include <libxml/parser.h>
#include <libxml/parserInternals.h>
#include <libxml/xmlwriter.h>
#include <libxml/xmlIO.h>
#include <libxml/encoding.h>
#include <libxml/tree.h>
#include <string>
#include <vector>
#include <map>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>

struct _xmlBuf { std::string s; };
typedef std::string str;

extern "C" {

static int convOut(xmlOutputBufferPtr o);

// ---------------------------------------------------------------- memory, dictionary, globals
static void freeImpl(void *p) { free(p); }
xmlFreeFunc xmlFree = freeImpl;
xmlMallocFunc xmlMalloc = malloc;
xmlReallocFunc xmlRealloc = realloc;
static char *dupImpl(const char *s) { return strdup(s); }
xmlStrdupFunc xmlMemStrdup = dupImpl;
void xmlInitParser(void) {}
void xmlCleanupParser(void) {}
void xmlRegisterDefaultInputCallbacks(void) {}
void initGenericErrorDefaultFunc(xmlGenericErrorFunc *) {}
void xmlSetStructuredErrorFunc(void *, xmlStructuredErrorFunc) {}
void xmlSetGenericErrorFunc(void *, xmlGenericErrorFunc) {}

struct _xmlDict { std::vector<xmlChar *> v; };
static xmlDictPtr theDict;
const xmlChar *xmlDictLookup(xmlDictPtr d, const xmlChar *name, int len) {
    if (!d) d = theDict;
    if (!d) d = theDict = new _xmlDict;
    if (len < 0) len = (int)strlen((const char *)name);
    for (auto p : d->v) if (strlen((const char *)p) == (size_t)len && !memcmp(p, name, len)) return p;
    xmlChar *q = (xmlChar *)malloc(len + 1); memcpy(q, name, len); q[len] = 0; d->v.push_back(q);
    return q;
}

// ---------------------------------------------------------------- encodings
enum { E_UTF8 = 1, E_LATIN1, E_ASCII, E_UTF16LE, E_UTF16BE, E_UTF16 };
static int ident(unsigned char *, int *, const unsigned char *, int *) { return 0; }
static xmlCharEncodingHandler hUTF8 = { (char *)"UTF-8", ident, ident }, hL1 = { (char *)"ISO-8859-1", ident, ident }, hASCII = { (char *)"ASCII", ident, ident },
    hU16L = { (char *)"UTF-16LE", ident, ident }, hU16B = { (char *)"UTF-16BE", ident, ident }, hU16 = { (char *)"UTF-16", ident, ident };
static int kindOf(xmlCharEncodingHandlerPtr h) { return h == &hUTF8 ? E_UTF8 : h == &hL1 ? E_LATIN1 : h == &hASCII ? E_ASCII : h == &hU16L ? E_UTF16LE : h == &hU16B ? E_UTF16BE : h == &hU16 ? E_UTF16 : 0; }
static str upper(const char *n) { str u; for (; *n; ++n) u += (char)(*n >= 'a' && *n <= 'z' ? *n - 32 : *n); return u; }
xmlCharEncodingHandlerPtr xmlFindCharEncodingHandler(const char *name) {
    if (!name || !*name) return 0;
    str u = upper(name);
    if (u == "UTF-8" || u == "UTF8") return &hUTF8;
    if (u == "ISO-8859-1" || u == "ISO-LATIN-1" || u == "ISO LATIN 1") return &hL1;
    if (u == "ASCII" || u == "US-ASCII") return &hASCII;
    if (u == "UTF-16LE") return &hU16L;
    if (u == "UTF-16BE") return &hU16B;
    if (u == "UTF-16") return &hU16;
    return 0;
}
xmlCharEncoding xmlParseCharEncoding(const char *name) {
    if (!name) return XML_CHAR_ENCODING_NONE;
    str u = upper(name);
    if (u == "") return XML_CHAR_ENCODING_NONE;
    if (u == "UTF-8" || u == "UTF8") return XML_CHAR_ENCODING_UTF8;
    if (u == "UTF-16" || u == "UTF16") return XML_CHAR_ENCODING_UTF16LE;
    if (u == "ISO-8859-1" || u == "ISO-LATIN-1" || u == "ISO LATIN 1") return XML_CHAR_ENCODING_8859_1;
    if (u == "ASCII" || u == "US-ASCII") return XML_CHAR_ENCODING_ASCII;
    return XML_CHAR_ENCODING_ERROR;
}
static xmlCharEncodingHandlerPtr handlerOf(xmlCharEncoding e) {
    switch (e) { case XML_CHAR_ENCODING_8859_1: return &hL1; case XML_CHAR_ENCODING_ASCII: return &hASCII; case XML_CHAR_ENCODING_UTF16LE: return &hU16L; case XML_CHAR_ENCODING_UTF16BE: return &hU16B; default: return 0; }
}
static str toUTF8(int kind, const str &in) {
    if (kind != E_LATIN1) return in;
    str o; for (size_t i = 0; i < in.size(); ++i) { unsigned char c = in[i]; if (c < 0x80) o += (char)c; else { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 0x3f)); } }
    return o;
}
// one character of a UTF-8 string; 0 on malformed input
static int getc8(const unsigned char *p, size_t n, unsigned &cp) {
    if (p[0] < 0x80) { cp = p[0]; return 1; }
    if (p[0] >= 0xC0 && p[0] < 0xE0) { if (n < 2 || (p[1] & 0xC0) != 0x80) return 0; cp = (p[0] & 0x1f) << 6 | (p[1] & 0x3f); return 2; }
    if (p[0] >= 0xE0 && p[0] < 0xF0) { if (n < 3 || (p[1] & 0xC0) != 0x80 || (p[2] & 0xC0) != 0x80) return 0; cp = (p[0] & 0xf) << 12 | (p[1] & 0x3f) << 6 | (p[2] & 0x3f); return 3; }
    if (p[0] >= 0xF0 && p[0] < 0xF8) { if (n < 4 || (p[1] & 0xC0) != 0x80 || (p[2] & 0xC0) != 0x80 || (p[3] & 0xC0) != 0x80) return 0; cp = (p[0] & 7) << 18 | (p[1] & 0x3f) << 12 | (p[2] & 0x3f) << 6 | (p[3] & 0x3f); return 4; }
    return 0;
}
static void put8(str &o, unsigned c) {
    if (c < 0x80) o += (char)c;
    else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 0x3f)); }
    else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 0x3f)); o += (char)(0x80 | (c & 0x3f)); }
    else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 0x3f)); o += (char)(0x80 | (c >> 6 & 0x3f)); o += (char)(0x80 | (c & 0x3f)); }
}
static str fromUTF8(int kind, const str &in) {
    if (kind == E_UTF8 || kind == 0) return in;
    str o;
    for (size_t i = 0; i < in.size();) {
        unsigned cp; int l = getc8((const unsigned char *)in.data() + i, in.size() - i, cp);
        if (!l) { o += ' '; ++i; continue; }
        if (kind == E_UTF16LE || kind == E_UTF16 ) { o += (char)(cp & 255); o += (char)(cp >> 8); }
        else if (kind == E_UTF16BE) { o += (char)(cp >> 8); o += (char)(cp & 255); }
        else if (cp < (kind == E_ASCII ? 0x80u : 0x100u)) o += (char)cp;
        else { char b[20]; snprintf(b, sizeof b, "&#%d;", (int)cp); o += b; }
        i += l;
    }
    return o;
}

// ---------------------------------------------------------------- xmlBuffer
xmlBufferPtr xmlBufferCreate(void) { xmlBufferPtr b = (xmlBufferPtr)calloc(1, sizeof(xmlBuffer)); b->size = 256; b->content = (xmlChar *)malloc(256); b->content[0] = 0; return b; }
void xmlBufferFree(xmlBufferPtr b) { if (!b) return; free(b->content); free(b); }
const xmlChar *xmlBufferContent(const xmlBuffer *b) { return b ? b->content : 0; }
int xmlBufferLength(const xmlBuffer *b) { return b ? b->use : 0; }
xmlChar *xmlBufferDetach(xmlBufferPtr b) { if (!b) return 0; xmlChar *r = b->content; b->content = 0; b->size = 0; b->use = 0; return r; }
static void bufferAdd(xmlBufferPtr b, const char *s, size_t n) {
    if (b->use + n + 1 > b->size) { size_t k = (b->use + n + 1) * 2; xmlChar *q = (xmlChar *)malloc(k); if (b->content) { memcpy(q, b->content, b->use); free(b->content); } b->content = q; b->size = k; }
    memcpy(b->content + b->use, s, n); b->use += n; b->content[b->use] = 0;
}
xmlChar *xmlStrdup(const xmlChar *s) { return s ? (xmlChar *)strdup((const char *)s) : 0; }
int xmlStrEqual(const xmlChar *a, const xmlChar *b) { if (a == b) return 1; if (!a || !b) return 0; return strcmp((const char *)a, (const char *)b) == 0; }

// ---------------------------------------------------------------- output buffers
static int wrBuffer(void *c, const char *s, int n) { bufferAdd((xmlBufferPtr)c, s, n); return n; }
static int wrFd(void *c, const char *s, int n) { return n <= 0 ? 0 : (int)write((int)(long)c, s, n); }
static int wrFile(void *c, const char *s, int n) { return (int)fwrite(s, 1, n, (FILE *)c); }
static int clFd(void *c) { return close((int)(long)c); }
static int clFile(void *c) { return fclose((FILE *)c); }
static int flFile(void *c) { return fflush((FILE *)c); }
static xmlOutputBufferPtr mkOut(void *ctx, xmlOutputWriteCallback w, xmlOutputCloseCallback c, xmlCharEncodingHandlerPtr e) {
    xmlOutputBufferPtr o = (xmlOutputBufferPtr)calloc(1, sizeof(xmlOutputBuffer));
    o->context = ctx; o->writecallback = w; o->closecallback = c; o->encoder = e; o->buffer = new _xmlBuf; if (e) o->conv = new _xmlBuf;
    return o;
}
xmlOutputBufferPtr xmlOutputBufferCreateBuffer(xmlBufferPtr b, xmlCharEncodingHandlerPtr e) { if (!b) return 0; return mkOut(b, wrBuffer, 0, e); }
xmlOutputBufferPtr xmlOutputBufferCreateFd(int fd, xmlCharEncodingHandlerPtr e) { if (fd < 0) return 0; return mkOut((void *)(long)fd, wrFd, 0, e); }
xmlOutputBufferPtr xmlOutputBufferCreateFile(FILE *f, xmlCharEncodingHandlerPtr e) { if (!f) return 0; return mkOut(f, wrFile, flFile, e); }
xmlOutputBufferPtr xmlOutputBufferCreateIO(xmlOutputWriteCallback w, xmlOutputCloseCallback c, void *ctx, xmlCharEncodingHandlerPtr e) { if (!w) return 0; return mkOut(ctx, w, c, e); }
xmlOutputBufferPtr xmlOutputBufferCreateFilename(const char *n, xmlCharEncodingHandlerPtr e, int) { if (!n) return 0; FILE *f = fopen(n, "wb"); if (!f) return 0; return mkOut(f, wrFile, clFile, e); }
static int convOut(xmlOutputBufferPtr o) { if (o->encoder && o->conv) { o->conv->s += fromUTF8(kindOf(o->encoder), o->buffer->s); o->buffer->s.clear(); } return 0; }
int xmlOutputBufferFlush(xmlOutputBufferPtr o) {
    if (!o || o->error) return -1;
    int ret = 0;
    str *src = &o->buffer->s;
    if (o->conv && o->encoder) { convOut(o); src = &o->conv->s; }
    if (o->writecallback) { ret = o->writecallback(o->context, src->c_str(), (int)src->size()); if (ret >= 0) src->erase(0, ret); }
    if (ret < 0) { o->error = XML_IO_FLUSH; return ret; }
    o->written += ret;
    return ret;
}
int xmlOutputBufferWrite(xmlOutputBufferPtr o, int len, const char *b) {
    if (!o || o->error) return -1;
    if (len < 0) return 0;
    o->buffer->s.append(b, len);
    if (o->buffer->s.size() + (o->conv ? o->conv->s.size() : 0) >= 4000 && o->writecallback) { if (xmlOutputBufferFlush(o) < 0) return -1; }
    return len;
}
int xmlOutputBufferWriteString(xmlOutputBufferPtr o, const char *s) { if (!o || o->error) return -1; if (!s) return -1; int n = (int)strlen(s); if (n > 0) return xmlOutputBufferWrite(o, n, s); return n; }
int xmlOutputBufferClose(xmlOutputBufferPtr o) {
    if (!o) return -1;
    int ec = 0;
    if (o->writecallback) xmlOutputBufferFlush(o);
    if (o->closecallback) ec = o->closecallback(o->context);
    int w = o->written;
    delete o->conv; delete o->buffer;
    int er = o->error;
    free(o);
    if (er) ec = -1;
    return ec == 0 ? w : ec;
}

// ---------------------------------------------------------------- text writer
enum WS { W_NONE, W_NAME, W_ATTR, W_TEXT, W_PI, W_PITEXT };
struct WE { str name; WS st; };
struct NS { str qname, uri; size_t depth; };
struct _xmlTextWriter { xmlOutputBufferPtr out; std::vector<WE> nodes; std::vector<NS> ns; };
static void W_(xmlTextWriterPtr w, const str &s) { xmlOutputBufferWrite(w->out, (int)s.size(), s.c_str()); }
xmlTextWriterPtr xmlNewTextWriter(xmlOutputBufferPtr o) { if (!o) return 0; xmlTextWriterPtr w = new _xmlTextWriter; w->out = o; return w; }
void xmlFreeTextWriter(xmlTextWriterPtr w) { if (!w) return; if (w->out) xmlOutputBufferClose(w->out); delete w; }
int xmlTextWriterFlush(xmlTextWriterPtr w) { if (!w) return -1; if (!w->out) return 0; return xmlOutputBufferFlush(w->out); }
static str special(const char *s, size_t n) {
    str o;
    for (size_t i = 0; i < n; ++i) switch (s[i]) { case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '&': o += "&amp;"; break; case '"': o += "&quot;"; break; case '\r': o += "&#13;"; break; default: o += s[i]; }
    return o;
}
static bool ischar(unsigned v) { return v < 0x100 ? (v >= 9 && v <= 10) || v == 13 || v >= 0x20 : (v <= 0xD7FF) || (v >= 0xE000 && v <= 0xFFFD) || (v >= 0x10000 && v <= 0x10FFFF); }
static str attrtext(const char *s) {
    str o; char b[24];
    const unsigned char *p = (const unsigned char *)s;
    while (*p) {
        if (*p == '"') o += "&quot;"; else if (*p == '\n') o += "&#10;"; else if (*p == '\r') o += "&#13;"; else if (*p == '\t') o += "&#9;";
        else if (*p == '<') o += "&lt;"; else if (*p == '>') o += "&gt;"; else if (*p == '&') o += "&amp;";
        else if (*p >= 0x80 && p[1] != 0) {
            unsigned val = 0; int l = 1;
            if (*p < 0xC0) { snprintf(b, sizeof b, "&#x%X;", *p); o += b; ++p; continue; }
            else if (*p < 0xE0) { val = (p[0] & 0x1F) << 6 | (p[1] & 0x3F); l = 2; }
            else if (*p < 0xF0 && p[2] != 0) { val = (p[0] & 0xF) << 12 | (p[1] & 0x3F) << 6 | (p[2] & 0x3F); l = 3; }
            else if (*p < 0xF8 && p[2] != 0 && p[3] != 0) { val = (p[0] & 7) << 18 | (p[1] & 0x3F) << 12 | (p[2] & 0x3F) << 6 | (p[3] & 0x3F); l = 4; }
            if (l == 1 || !ischar(val)) { snprintf(b, sizeof b, "&#x%X;", *p); o += b; ++p; continue; }
            snprintf(b, sizeof b, "&#x%X;", val); o += b; p += l; continue;
        }
        else o += (char)*p;
        ++p;
    }
    return o;
}
static void nsdecl(xmlTextWriterPtr w) {
    std::vector<NS> v; v.swap(w->ns);
    for (auto &n : v) { W_(w, " "); W_(w, n.qname); W_(w, "=\""); xmlOutputBufferPtr o = w->out; o->buffer->s += attrtext(n.uri.c_str()); W_(w, "\""); }
}
static int openTag(xmlTextWriterPtr w) {   // closes a pending start tag before content
    if (w->nodes.empty()) return 0;
    WE &e = w->nodes.back();
    if (e.st == W_ATTR) { W_(w, "\""); e.st = W_NAME; }
    if (e.st == W_NAME) { nsdecl(w); W_(w, ">"); e.st = W_TEXT; }
    else if (e.st == W_PI) { W_(w, " "); e.st = W_PITEXT; }
    return 0;
}
int xmlTextWriterStartDocument(xmlTextWriterPtr w, const char *ver, const char *enc, const char *sa) {
    if (!w || !w->out) return -1;
    if (!w->nodes.empty()) return -1;
    xmlCharEncodingHandlerPtr h = 0;
    if (enc) { h = xmlFindCharEncodingHandler(enc); if (!h) return -1; }
    w->out->encoder = h;
    if (h) { if (!w->out->conv) w->out->conv = new _xmlBuf; }
    else w->out->conv = 0;
    W_(w, "<?xml version=\""); W_(w, ver ? ver : "1.0"); W_(w, "\"");
    if (h) { W_(w, " encoding=\""); W_(w, h->name); W_(w, "\""); }
    if (sa) { W_(w, " standalone=\""); W_(w, sa); W_(w, "\""); }
    W_(w, "?>\n");
    return 0;
}
int xmlTextWriterStartElement(xmlTextWriterPtr w, const xmlChar *name) {
    if (!w || !name || !*name) return -1;
    if (!w->nodes.empty()) { if (w->nodes.back().st == W_PI || w->nodes.back().st == W_PITEXT) return -1; openTag(w); }
    WE e; e.name = (const char *)name; e.st = W_NAME; w->nodes.push_back(e);
    W_(w, "<"); W_(w, e.name);
    return 0;
}
int xmlTextWriterStartElementNS(xmlTextWriterPtr w, const xmlChar *prefix, const xmlChar *name, const xmlChar *uri) {
    if (!w || !name || !*name) return -1;
    str q; if (prefix) { q = (const char *)prefix; q += ":"; } q += (const char *)name;
    if (xmlTextWriterStartElement(w, (const xmlChar *)q.c_str()) < 0) return -1;
    if (uri) { NS n; n.qname = "xmlns"; if (prefix) { n.qname += ":"; n.qname += (const char *)prefix; } n.uri = (const char *)uri; n.depth = w->nodes.size(); w->ns.push_back(n); }
    return 0;
}
int xmlTextWriterEndElement(xmlTextWriterPtr w) {
    if (!w || w->nodes.empty()) return -1;
    WE &e = w->nodes.back();
    if (e.st == W_ATTR) { W_(w, "\""); e.st = W_NAME; }
    if (e.st == W_NAME) { nsdecl(w); W_(w, "/>"); }
    else if (e.st == W_TEXT) { W_(w, "</"); W_(w, e.name); W_(w, ">"); }
    else return -1;
    w->nodes.pop_back();
    return 0;
}
int xmlTextWriterWriteRawLen(xmlTextWriterPtr w, const xmlChar *s, int len) { if (!w || !s || len < 0) return -1; openTag(w); xmlOutputBufferWrite(w->out, len, (const char *)s); return len; }
int xmlTextWriterWriteRaw(xmlTextWriterPtr w, const xmlChar *s) { return xmlTextWriterWriteRawLen(w, s, s ? (int)strlen((const char *)s) : -1); }
int xmlTextWriterWriteString(xmlTextWriterPtr w, const xmlChar *s) {
    if (!w || !s) return -1;
    if (!w->nodes.empty()) {
        WS st = w->nodes.back().st;
        if (st == W_NAME || st == W_TEXT) { str e = special((const char *)s, strlen((const char *)s)); return xmlTextWriterWriteRawLen(w, (const xmlChar *)e.c_str(), (int)e.size()); }
        if (st == W_ATTR) { w->out->buffer->s += attrtext((const char *)s); return 0; }
    }
    return xmlTextWriterWriteRaw(w, s);
}
int xmlTextWriterWriteVFormatString(xmlTextWriterPtr w, const char *f, va_list ap) {
    if (!w) return -1;
    va_list cp; va_copy(cp, ap); char b[64]; int n = vsnprintf(b, sizeof b, f, cp); va_end(cp);
    if (n < 0) return -1;
    char *q = (char *)malloc(n + 1); vsnprintf(q, n + 1, f, ap);
    int r = xmlTextWriterWriteString(w, (const xmlChar *)q); free(q);
    return r;
}
int xmlTextWriterWriteFormatString(xmlTextWriterPtr w, const char *f, ...) { va_list ap; va_start(ap, f); int r = xmlTextWriterWriteVFormatString(w, f, ap); va_end(ap); return r; }
int xmlTextWriterWriteAttribute(xmlTextWriterPtr w, const xmlChar *name, const xmlChar *content) {
    if (!w || !name || !*name) return -1;
    if (w->nodes.empty()) return -1;
    WE &e = w->nodes.back();
    if (e.st == W_ATTR) { W_(w, "\""); e.st = W_NAME; }
    if (e.st != W_NAME) return -1;
    W_(w, " "); W_(w, (const char *)name); W_(w, "=\""); e.st = W_ATTR;
    if (xmlTextWriterWriteString(w, content) == -1 && !content) return -1;
    W_(w, "\""); e.st = W_NAME;
    return 0;
}
int xmlTextWriterWriteAttributeNS(xmlTextWriterPtr w, const xmlChar *prefix, const xmlChar *name, const xmlChar *uri, const xmlChar *content) {
    if (!w || !name || !*name) return -1;
    if (uri) {
        str q = "xmlns"; if (prefix) { q += ":"; q += (const char *)prefix; }
        for (auto &n : w->ns) if (n.qname == q) { if (n.uri == (const char *)uri) goto skip; return -1; }
        NS n; n.qname = q; n.uri = (const char *)uri; n.depth = w->nodes.size(); w->ns.push_back(n);
    }
skip:
    str q; if (prefix) { q = (const char *)prefix; q += ":"; } q += (const char *)name;
    return xmlTextWriterWriteAttribute(w, (const xmlChar *)q.c_str(), content);
}
int xmlTextWriterStartPI(xmlTextWriterPtr w, const xmlChar *t) {
    if (!w || !t || !*t) return -1;
    if (!w->nodes.empty()) { if (w->nodes.back().st == W_PI || w->nodes.back().st == W_PITEXT) return -1; openTag(w); }
    WE e; e.name = (const char *)t; e.st = W_PI; w->nodes.push_back(e);
    W_(w, "<?"); W_(w, e.name);
    return 0;
}
int xmlTextWriterEndPI(xmlTextWriterPtr w) {
    if (!w || w->nodes.empty()) return 0;
    if (w->nodes.back().st != W_PI && w->nodes.back().st != W_PITEXT) return -1;
    W_(w, "?>"); w->nodes.pop_back();
    return 0;
}
int xmlTextWriterEndDocument(xmlTextWriterPtr w) {
    if (!w) return -1;
    while (!w->nodes.empty()) { WS s = w->nodes.back().st; if (s == W_PI || s == W_PITEXT) xmlTextWriterEndPI(w); else xmlTextWriterEndElement(w); }
    W_(w, "\n");
    return xmlTextWriterFlush(w);
}

// ---------------------------------------------------------------- parser input
static int rdFd(void *c, char *b, int n) { return (int)read((int)(long)c, b, n); }
static int rdFile(void *c, char *b, int n) { return (int)fread(b, 1, n, (FILE *)c); }
xmlParserInputBufferPtr xmlAllocParserInputBuffer(xmlCharEncoding e) {
    xmlParserInputBufferPtr b = (xmlParserInputBufferPtr)calloc(1, sizeof(xmlParserInputBuffer));
    b->buffer = new _xmlBuf; b->encoder = handlerOf(e); if (b->encoder) b->raw = new _xmlBuf; b->compressed = -1;
    return b;
}
void xmlFreeParserInputBuffer(xmlParserInputBufferPtr b) { if (!b) return; if (b->closecallback) b->closecallback(b->context); delete b->buffer; delete b->raw; free(b); }
xmlParserInputBufferPtr xmlParserInputBufferCreateIO(xmlInputReadCallback r, xmlInputCloseCallback c, void *ctx, xmlCharEncoding e) { if (!r) return 0; xmlParserInputBufferPtr b = xmlAllocParserInputBuffer(e); b->context = ctx; b->readcallback = r; b->closecallback = c; return b; }
xmlParserInputBufferPtr xmlParserInputBufferCreateFd(int fd, xmlCharEncoding e) { if (fd < 0) return 0; return xmlParserInputBufferCreateIO(rdFd, clFd, (void *)(long)fd, e); }
xmlParserInputBufferPtr xmlParserInputBufferCreateFile(FILE *f, xmlCharEncoding e) { if (!f) return 0; return xmlParserInputBufferCreateIO(rdFile, flFile, f, e); }
xmlParserInputBufferPtr xmlParserInputBufferCreateFilename(const char *n, xmlCharEncoding e) { if (!n) return 0; FILE *f = fopen(n, "rb"); if (!f) return 0; return xmlParserInputBufferCreateIO(rdFile, clFile, f, e); }
xmlParserInputBufferPtr xmlParserInputBufferCreateMem(const char *m, int n, xmlCharEncoding e) { if (n < 0 || !m) return 0; xmlParserInputBufferPtr b = xmlAllocParserInputBuffer(e); b->buffer->s.assign(m, n); return b; }
int xmlParserInputBufferGrow(xmlParserInputBufferPtr in, int len) {
    if (!in || in->error) return -1;
    int got = 0;
    str tmp;
    if (in->readcallback) {
        std::vector<char> v(len > 4000 ? len : 4000);
        got = in->readcallback(in->context, v.data(), (int)v.size());
        if (got < 0) { in->error = XML_IO_UNKNOWN; return -1; }
        if (got == 0) in->readcallback = 0;
        tmp.assign(v.data(), got);
    }
    if (in->encoder) { str r = in->raw->s + tmp; in->raw->s.clear(); in->rawconsumed += r.size(); str u = toUTF8(kindOf(in->encoder), r); in->buffer->s += u; return (int)u.size(); }
    in->buffer->s += tmp;
    return got;
}

// ---------------------------------------------------------------- SAX2 parser
struct PState { std::vector<const xmlChar *> ns; std::vector<size_t> nsMark; std::vector<const xmlChar *> prefix, uri; std::vector<xmlChar *> alloc; xmlSAXHandler *own; bool stop; str enc, ver, msg; };
static std::map<xmlParserCtxtPtr, PState *> *P_;
static PState *ps(xmlParserCtxtPtr c) { return (PState *)c->node_seq.buffer; }
xmlParserCtxtPtr xmlNewParserCtxt(void) {
    xmlParserCtxtPtr c = (xmlParserCtxtPtr)calloc(1, sizeof(xmlParserCtxt));
    PState *p = new PState; p->stop = false; c->node_seq.buffer = (xmlParserNodeInfo *)p;
    p->own = (xmlSAXHandler *)calloc(1, sizeof(xmlSAXHandler)); c->sax = p->own; c->sax->initialized = XML_SAX2_MAGIC; c->userData = c;
    c->dict = new _xmlDict; c->wellFormed = 1; c->nsWellFormed = 1; c->sax2 = 1; c->standalone = -1; c->keepBlanks = 1;
    return c;
}
int xmlCtxtUseOptions(xmlParserCtxtPtr c, int o) { c->options |= o; if (o & XML_PARSE_NOENT) c->replaceEntities = 1; if (o & XML_PARSE_RECOVER) c->recovery = 1; return 0; }
static xmlParserInputPtr mkInput(xmlParserInputBufferPtr b) {
    xmlParserInputPtr i = (xmlParserInputPtr)calloc(1, sizeof(xmlParserInput)); i->buf = b; i->line = 1; i->col = 1; i->standalone = -1;
    const str &s = b->buffer->s; i->base = i->cur = (const xmlChar *)s.c_str(); i->end = i->base + s.size();
    return i;
}
xmlParserInputPtr xmlNewIOInputStream(xmlParserCtxtPtr, xmlParserInputBufferPtr b, xmlCharEncoding) { return b ? mkInput(b) : 0; }
int inputPush(xmlParserCtxtPtr c, xmlParserInputPtr i) { c->input = i; c->inputNr = 1; return 0; }
xmlParserCtxtPtr xmlCreateMemoryParserCtxt(const char *m, int n) { if (!m || n <= 0) return 0; xmlParserCtxtPtr c = xmlNewParserCtxt(); inputPush(c, mkInput(xmlParserInputBufferCreateMem(m, n, XML_CHAR_ENCODING_NONE))); return c; }
void xmlFreeParserCtxt(xmlParserCtxtPtr c) {
    if (!c) return;
    if (c->input) { if (c->input->buf) xmlFreeParserInputBuffer(c->input->buf); free(c->input); }
    PState *p = ps(c); for (auto a : p->alloc) free(a);
    free(p->own);
    delete p; for (auto w : c->dict->v) free(w); delete c->dict; free(c->atts); free(c);
}
xmlErrorPtr xmlCtxtGetLastError(void *c) { xmlParserCtxtPtr x = (xmlParserCtxtPtr)c; if (!x || x->lastError.code == 0) return 0; return &x->lastError; }
void xmlStopParser(xmlParserCtxtPtr c) { if (!c) return; ps(c)->stop = true; c->instate = XML_PARSER_EOF; c->disableSAX = 1; c->errNo = XML_ERR_USER_STOP; if (c->input) { static const xmlChar nul[1] = {0}; c->input->base = c->input->cur = c->input->end = nul; } }
static void fatal(xmlParserCtxtPtr c, int code, const char *msg) {
    if (c->disableSAX && c->instate == XML_PARSER_EOF) return;
    c->errNo = code; c->wellFormed = 0; if (!c->recovery) c->disableSAX = 1;
    if (!c->lastError.code) { PState *p = ps(c); p->msg = msg; p->msg += "\n"; c->lastError.code = code; c->lastError.message = &p->msg[0]; c->lastError.level = XML_ERR_FATAL; }
}
// drops what was read from the buffer, as libxml2 does close to the end of what is buffered
static void shrink(xmlParserCtxtPtr c) {
    xmlParserInputPtr i = c->input; size_t used = (size_t)(i->cur - i->base);
    if (!i->buf || used <= 500 || (size_t)(i->end - i->cur) >= 500) return;
    std::string &b = i->buf->buffer->s; size_t drop = used - 80;
    b.erase(0, drop); i->consumed += drop; i->base = (const xmlChar *)b.c_str(); i->cur = i->base + 80; i->end = i->base + b.size();
}
#define CUR (*c->input->cur)
#define NXT(n) (c->input->cur[n])
static inline bool blank(xmlChar x) { return x == 0x20 || x == 9 || x == 10 || x == 13; }
static void skipBlanks(xmlParserCtxtPtr c) { while (blank(CUR)) { if (CUR == '\n') ++c->input->line; ++c->input->cur; } }
static bool nameStart(xmlChar x) { return (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z') || x == '_' || x >= 0x80; }
static bool nameChar(xmlChar x) { return nameStart(x) || (x >= '0' && x <= '9') || x == '-' || x == '.'; }
static const xmlChar *parseNC(xmlParserCtxtPtr c) { const xmlChar *s = c->input->cur; if (!nameStart(*s)) return 0; const xmlChar *e = s; while (nameChar(*e)) ++e; c->input->cur = e; return xmlDictLookup(c->dict, s, (int)(e - s)); }
static const xmlChar *parseQ(xmlParserCtxtPtr c, const xmlChar **pre) {
    *pre = 0; const xmlChar *l = parseNC(c); if (!l) { if (CUR == ':') { const xmlChar *s = c->input->cur; const xmlChar *e = s + 1; while (nameChar(*e) || *e == ':') ++e; c->input->cur = e; return xmlDictLookup(c->dict, s, (int)(e - s)); } return 0; }
    if (CUR == ':') { ++c->input->cur; const xmlChar *p = l; l = parseNC(c); if (!l) { str q = (const char *)p; q += ":"; return xmlDictLookup(c->dict, (const xmlChar *)q.c_str(), -1); } *pre = p; }
    return l;
}
static const xmlChar *parseName(xmlParserCtxtPtr c) { const xmlChar *s = c->input->cur; if (!(nameStart(*s) || *s == ':')) return 0; const xmlChar *e = s; while (nameChar(*e) || *e == ':') ++e; c->input->cur = e; return xmlDictLookup(c->dict, s, (int)(e - s)); }
// current character (with line-end normalisation); l = bytes to consume
static unsigned curChar(xmlParserCtxtPtr c, int *l) {
    const xmlChar *p = c->input->cur;
    if (*p >= 0x20 && *p <= 0x7f) { *l = 1; return *p; }
    if (*p & 0x80) {
        unsigned v; int n = getc8(p, (size_t)(c->input->end - p), v);
        if (!n) { fatal(c, XML_ERR_INVALID_ENCODING, "Input is not proper UTF-8, indicate encoding !"); *l = 1; return *p; }
        if (!ischar(v)) fatal(c, XML_ERR_INVALID_CHAR, "Char out of allowed range");
        *l = n; return v;
    }
    if (*p == 0xD) { if (p[1] == 0xA) ++c->input->cur; *l = 1; return 0xA; }
    if (*p == 0) { *l = 1; if (p < c->input->end) fatal(c, XML_ERR_INVALID_CHAR, "Char 0x0 out of allowed range"); return 0; }
    *l = 1; return *p;
}
static unsigned charRef(xmlParserCtxtPtr c) {
    unsigned v = 0; const xmlChar *p = c->input->cur + 2; bool any = false;
    if (*p == 'x') { ++p; while ((*p >= '0' && *p <= '9') || (*p >= 'a' && *p <= 'f') || (*p >= 'A' && *p <= 'F')) { v = v * 16 + (*p <= '9' ? *p - '0' : (*p | 32) - 'a' + 10); if (v > 0x110000) v = 0x110000; ++p; any = true; } }
    else while (*p >= '0' && *p <= '9') { v = v * 10 + (*p - '0'); if (v > 0x110000) v = 0x110000; ++p; any = true; }
    if (*p != ';' || !any) { fatal(c, XML_ERR_INVALID_CHARREF, "xmlParseCharRef: invalid"); c->input->cur = p; return 0; }
    c->input->cur = p + 1;
    if (v >= 0x110000 || !ischar(v) || v == 0) { fatal(c, XML_ERR_INVALID_CHAR, "xmlParseCharRef: invalid xmlChar value"); return 0; }
    return v;
}
static int predef(const xmlChar *n) { const char *s = (const char *)n; if (!strcmp(s, "lt")) return '<'; if (!strcmp(s, "gt")) return '>'; if (!strcmp(s, "amp")) return '&'; if (!strcmp(s, "quot")) return '"'; if (!strcmp(s, "apos")) return '\''; return 0; }
static int entityRef(xmlParserCtxtPtr c) {
    ++c->input->cur; const xmlChar *n = parseName(c);
    if (!n) { fatal(c, XML_ERR_NAME_REQUIRED, "xmlParseEntityRef: no name"); return 0; }
    if (CUR != ';') { fatal(c, XML_ERR_ENTITYREF_SEMICOL_MISSING, "EntityRef: expecting ';'"); return 0; }
    ++c->input->cur;
    int v = predef(n); if (!v) fatal(c, XML_ERR_UNDECLARED_ENTITY, "Entity not defined");
    return v;
}
// attribute value: *end set; value points into the input unless it needed conversion
static const xmlChar *attValue(xmlParserCtxtPtr c, const xmlChar **end, bool *own) {
    xmlChar lim = CUR; *own = false;
    if (lim != '"' && lim != '\'') { fatal(c, XML_ERR_ATTRIBUTE_NOT_STARTED, "AttValue: \" or ' expected"); return 0; }
    const xmlChar *s = c->input->cur + 1, *p = s;
    while (*p != lim && *p >= 0x20 && *p <= 0x7f && *p != '&' && *p != '<') ++p;
    if (*p == lim) { *end = p; c->input->cur = p + 1; return s; }
    c->input->cur = s;
    str o; int l;
    for (;;) {
        if (CUR == lim) break;
        if (CUR == '<') { fatal(c, XML_ERR_LT_IN_ATTRIBUTE, "Unescaped '<' not allowed in attributes values"); return 0; }
        if (CUR == '&') {
            if (NXT(1) == '#') { unsigned v = charRef(c); if (v == '&' && !c->replaceEntities) o += "&#38;"; else if (v) put8(o, v); else return 0; }
            else { int v = entityRef(c); if (!v) return 0; if (v == '&' && !c->replaceEntities) o += "&#38;"; else o += (char)v; }
            continue;
        }
        unsigned v = curChar(c, &l);
        if (!ischar(v)) { fatal(c, v == 0 ? XML_ERR_ATTRIBUTE_NOT_FINISHED : XML_ERR_INVALID_CHAR, "AttValue: ' expected"); return 0; }
        if (v == 0x20 || v == 0xD || v == 0xA || v == 9) { o += ' '; c->input->cur += l; }
        else { o.append((const char *)c->input->cur, l); c->input->cur += l; }
        if (c->instate == XML_PARSER_EOF) return 0;
    }
    ++c->input->cur;
    xmlChar *q = (xmlChar *)malloc(o.size() + 1); memcpy(q, o.c_str(), o.size() + 1); ps(c)->alloc.push_back(q);
    *end = q + o.size(); *own = true;
    return q;
}
static const xmlChar *nsLookup(xmlParserCtxtPtr c, const xmlChar *prefix) {
    PState *p = ps(c);
    if (prefix && !strcmp((const char *)prefix, "xml")) return (const xmlChar *)"http://www.w3.org/XML/1998/namespace";
    for (size_t i = p->ns.size(); i >= 2; i -= 2) if (p->ns[i - 2] == prefix) { if (!prefix && !*p->ns[i - 1]) return 0; return p->ns[i - 1]; }
    return 0;
}
static void namePush(xmlParserCtxtPtr c, const xmlChar *l, const xmlChar *pre, const xmlChar *uri, size_t mark) {
    if (c->nameNr + 1 > c->nameMax) { int m = c->nameMax ? c->nameMax * 2 : 16; const xmlChar **t = (const xmlChar **)malloc(m * sizeof(*t)); if (c->nameTab) { memcpy(t, c->nameTab, c->nameNr * sizeof(*t)); free(c->nameTab); } c->nameTab = t; c->nameMax = m; }
    c->nameTab[c->nameNr++] = l; c->name = l; PState *p = ps(c); p->prefix.push_back(pre); p->uri.push_back(uri); p->nsMark.push_back(mark);
}
static void namePop_(xmlParserCtxtPtr c) { PState *p = ps(c); p->ns.resize(p->nsMark.back()); p->nsMark.pop_back(); p->prefix.pop_back(); p->uri.pop_back(); --c->nameNr; c->name = c->nameNr ? c->nameTab[c->nameNr - 1] : 0; }

// 1 = empty element, 0 = open element, -1 = error
static int elementStart(xmlParserCtxtPtr c) {
    PState *p = ps(c);
    ++c->input->cur;
    const xmlChar *pre; size_t mark = p->ns.size();
    const xmlChar *l = parseQ(c, &pre);
    if (!l) { fatal(c, XML_ERR_NAME_REQUIRED, "StartTag: invalid element name"); return -1; }
    struct A { const xmlChar *l, *p, *u, *v, *e; };
    std::vector<A> at;
    skipBlanks(c);
    while (CUR != '>' && !(CUR == '/' && NXT(1) == '>') && c->instate != XML_PARSER_EOF) {
        if (CUR == 0) break;
        const xmlChar *ap, *al = parseQ(c, &ap);
        if (!al) { fatal(c, XML_ERR_NAME_REQUIRED, "error parsing attribute name"); break; }
        skipBlanks(c);
        if (CUR != '=') { fatal(c, XML_ERR_ATTRIBUTE_WITHOUT_VALUE, "Specification mandates value for attribute"); break; }
        ++c->input->cur; skipBlanks(c);
        const xmlChar *e; bool own; const xmlChar *v = attValue(c, &e, &own);
        if (!v) break;
        if (!ap && !strcmp((const char *)al, "xmlns")) {
            const xmlChar *u = xmlDictLookup(c->dict, v, (int)(e - v));
            bool dup = false; for (size_t i = mark; i < p->ns.size(); i += 2) if (p->ns[i] == 0) dup = true;
            if (dup) fatal(c, XML_ERR_ATTRIBUTE_REDEFINED, "Attribute xmlns redefined"); else { p->ns.push_back(0); p->ns.push_back(u); }
        } else if (ap && !strcmp((const char *)ap, "xmlns")) {
            const xmlChar *u = xmlDictLookup(c->dict, v, (int)(e - v));
            if (!strcmp((const char *)al, "xml") || !strcmp((const char *)al, "xmlns")) { c->nsWellFormed = 0; }
            else if (!*u) { c->nsWellFormed = 0; if (!c->lastError.code) { p->msg = "xmlns: empty\n"; c->lastError.code = XML_NS_ERR_XML_NAMESPACE; c->lastError.message = &p->msg[0]; } }
            else {
                bool dup = false; for (size_t i = mark; i < p->ns.size(); i += 2) if (p->ns[i] == al) dup = true;
                if (dup) fatal(c, XML_ERR_ATTRIBUTE_REDEFINED, "Attribute xmlns: redefined"); else { p->ns.push_back(al); p->ns.push_back(u); }
            }
        } else { A a; a.l = al; a.p = ap; a.u = 0; a.v = v; a.e = e; at.push_back(a); }
        if (CUR == '>' || (CUR == '/' && NXT(1) == '>')) break;
        if (!blank(CUR)) { fatal(c, XML_ERR_SPACE_REQUIRED, "attributes construct error"); break; }
        skipBlanks(c);
    }
    for (size_t i = 0; i < at.size(); ++i) { if (at[i].p) { at[i].u = nsLookup(c, at[i].p); if (!at[i].u) c->nsWellFormed = 0; }
        for (size_t j = 0; j < i; ++j) if (at[i].l == at[j].l && (at[i].p == at[j].p || (at[i].u && at[i].u == at[j].u))) { if (at[i].p == at[j].p) fatal(c, XML_ERR_ATTRIBUTE_REDEFINED, "Attribute redefined"); } }
    const xmlChar *uri = nsLookup(c, pre);
    if (pre && !uri) c->nsWellFormed = 0;
    std::vector<const xmlChar *> flat; for (auto &a : at) { flat.push_back(a.l); flat.push_back(a.p); flat.push_back(a.u); flat.push_back(a.v); flat.push_back(a.e); }
    flat.push_back(0);
    std::vector<const xmlChar *> nsv(p->ns.begin() + mark, p->ns.end()); size_t nns = nsv.size() / 2; nsv.push_back(0);
    if (c->sax && c->sax->startElementNs && !c->disableSAX) c->sax->startElementNs(c->userData, l, pre, uri, (int)nns, nns ? nsv.data() : 0, (int)at.size(), 0, flat.data());
    if (c->instate == XML_PARSER_EOF) { return -1; }
    namePush(c, l, pre, uri, mark);
    if (CUR == '/' && NXT(1) == '>') {
        c->input->cur += 2;
        if (c->sax && c->sax->endElementNs && !c->disableSAX) c->sax->endElementNs(c->userData, l, pre, uri);
        namePop_(c);
        return 1;
    }
    if (CUR == '>') { ++c->input->cur; return 0; }
    fatal(c, XML_ERR_GT_REQUIRED, "Couldn't find end of Start Tag");
    namePop_(c);
    return -1;
}
static void elementEnd(xmlParserCtxtPtr c) {
    PState *p = ps(c);
    if (c->nameNr <= 0) return;
    c->input->cur += 2;
    const xmlChar *pre; const xmlChar *l = parseQ(c, &pre);
    skipBlanks(c);
    if (CUR != '>') fatal(c, XML_ERR_GT_REQUIRED, "expected '>'"); else ++c->input->cur;
    if (l != c->name || pre != p->prefix.back()) fatal(c, XML_ERR_TAG_NAME_MISMATCH, "Opening and ending tag mismatch");
    if (c->sax && c->sax->endElementNs && !c->disableSAX) c->sax->endElementNs(c->userData, c->name, p->prefix.back(), p->uri.back());
    if (!p->nsMark.empty()) namePop_(c);
}
static void chars(xmlParserCtxtPtr c, const xmlChar *s, int n) { if (c->sax && c->sax->characters && !c->disableSAX) c->sax->characters(c->userData, s, n); }
static bool plainCh(xmlChar x) { return x == 9 || (x >= 0x20 && x <= 0x7f && x != '<' && x != '&' && x != ']'); }
static void charDataComplex(xmlParserCtxtPtr c) {
    str b; int l; unsigned v = curChar(c, &l); int count = 0;
    while (v != '<' && v != '&' && ischar(v)) {
        if (v == ']' && NXT(1) == ']' && NXT(2) == '>') fatal(c, XML_ERR_MISPLACED_CDATA_END, "Sequence ']]>' not allowed in content");
        if (l == 1) b += (char)v; else b.append((const char *)c->input->cur, l);
        c->input->cur += l;
        v = curChar(c, &l);
        if (b.size() >= 300) { chars(c, (const xmlChar *)b.c_str(), (int)b.size()); b.clear(); if (c->instate == XML_PARSER_EOF) return; }
        if (++count > 50) { shrink(c); count = 0; }
    }
    if (!b.empty()) { chars(c, (const xmlChar *)b.c_str(), (int)b.size()); if (c->instate == XML_PARSER_EOF) return; }
    if (v != 0 && !ischar(v)) { fatal(c, XML_ERR_INVALID_CHAR, "PCDATA invalid Char value"); c->input->cur += l; }
}
static void charData(xmlParserCtxtPtr c) {
    const xmlChar *in = c->input->cur;
    do {
        while (*in == 0x20 || *in == 0xA) { if (*in == 0xA) ++c->input->line; ++in; }
        if (*in == '<') { int n = (int)(in - c->input->cur); if (n > 0) { const xmlChar *t = c->input->cur; c->input->cur = in; chars(c, t, n); } return; }
        for (;;) {
            while (plainCh(*in)) ++in;
            if (*in == 0xA) { ++c->input->line; ++in; continue; }
            if (*in == ']') { if (in[1] == ']' && in[2] == '>') { fatal(c, XML_ERR_MISPLACED_CDATA_END, "Sequence ']]>' not allowed in content"); c->input->cur = in + 1; return; } ++in; continue; }
            break;
        }
        int n = (int)(in - c->input->cur);
        if (n > 0) { chars(c, c->input->cur, n); if (c->instate == XML_PARSER_EOF) return; }
        c->input->cur = in;
        if (*in == 0xD) { if (in[1] == 0xA) { c->input->cur = in + 1; in += 2; ++c->input->line; continue; } }
        if (*in == '<' || *in == '&') return;
        shrink(c);
        in = c->input->cur;
    } while ((*in >= 0x20 && *in <= 0x7F) || *in == 9 || *in == 0xA);
    charDataComplex(c);
}
static void reference(xmlParserCtxtPtr c) {
    if (NXT(1) == '#') { unsigned v = charRef(c); if (!v) return; str o; put8(o, v); chars(c, (const xmlChar *)o.c_str(), (int)o.size()); return; }
    int v = entityRef(c); if (!v) return;
    xmlChar b[2] = { (xmlChar)v, 0 }; chars(c, b, 1);
}
static void commentNode(xmlParserCtxtPtr c) {
    c->input->cur += 4; str o; int l, count = 0;
    for (;;) {
        if (CUR == '-' && NXT(1) == '-') { if (NXT(2) == '>') break; fatal(c, XML_ERR_HYPHEN_IN_COMMENT, "Double hyphen within comment"); return; }
        unsigned v = curChar(c, &l);
        if (v == 0 || !ischar(v)) { fatal(c, XML_ERR_COMMENT_NOT_FINISHED, "Comment not terminated"); return; }
        if (l == 1) o += (char)v; else o.append((const char *)c->input->cur, l);
        c->input->cur += l;
        if (++count > 50) { shrink(c); count = 0; }
    }
    c->input->cur += 3;
    if (c->sax && c->sax->comment && !c->disableSAX) c->sax->comment(c->userData, (const xmlChar *)o.c_str());
}
static void pi(xmlParserCtxtPtr c) {
    c->input->cur += 2; const xmlChar *t = parseName(c);
    if (!t) { fatal(c, XML_ERR_PI_NOT_STARTED, "xmlParsePI : no target name"); return; }
    if (strlen((const char *)t) == 3 && (t[0] | 32) == 'x' && (t[1] | 32) == 'm' && (t[2] | 32) == 'l') { fatal(c, XML_ERR_RESERVED_XML_NAME, "XML declaration allowed only at the start of the document"); if (t[0] == 'x' && t[1] == 'm' && t[2] == 'l') {} }
    if (CUR == '?' && NXT(1) == '>') { c->input->cur += 2; if (c->sax && c->sax->processingInstruction && !c->disableSAX) c->sax->processingInstruction(c->userData, t, 0); return; }
    if (!blank(CUR)) fatal(c, XML_ERR_SPACE_REQUIRED, "ParsePI: PI space expected");
    skipBlanks(c);
    str o; int l, count = 0;
    while (!(CUR == '?' && NXT(1) == '>')) { unsigned v = curChar(c, &l); if (v == 0 || !ischar(v)) { fatal(c, XML_ERR_PI_NOT_FINISHED, "ParsePI: PI never end ..."); return; } if (l == 1) o += (char)v; else o.append((const char *)c->input->cur, l); c->input->cur += l; if (++count > 50) { shrink(c); count = 0; } }
    c->input->cur += 2;
    if (c->sax && c->sax->processingInstruction && !c->disableSAX) c->sax->processingInstruction(c->userData, t, (const xmlChar *)o.c_str());
}
static void cdata(xmlParserCtxtPtr c) {
    c->input->cur += 9; str o; int l, count = 0;
    while (!(CUR == ']' && NXT(1) == ']' && NXT(2) == '>')) { unsigned v = curChar(c, &l); if (v == 0 || !ischar(v)) { fatal(c, XML_ERR_CDATA_NOT_FINISHED, "CData section not finished"); return; } if (l == 1) o += (char)v; else o.append((const char *)c->input->cur, l); c->input->cur += l; if (++count > 50) { shrink(c); count = 0; } }
    c->input->cur += 3;
    if (c->sax && !c->disableSAX) { if (c->sax->cdataBlock) c->sax->cdataBlock(c->userData, (const xmlChar *)o.c_str(), (int)o.size()); else if (c->sax->characters) c->sax->characters(c->userData, (const xmlChar *)o.c_str(), (int)o.size()); }
}
static void misc(xmlParserCtxtPtr c) {
    for (;;) {
        skipBlanks(c);
        if (CUR == '<' && NXT(1) == '?') pi(c);
        else if (CUR == '<' && NXT(1) == '!' && NXT(2) == '-' && NXT(3) == '-') commentNode(c);
        else return;
        if (c->instate == XML_PARSER_EOF || !c->wellFormed) return;
    }
}
static bool starts(xmlParserCtxtPtr c, const char *s) { for (int i = 0; s[i]; ++i) if (c->input->cur[i] != (xmlChar)s[i]) return false; return true; }
int xmlParseDocument(xmlParserCtxtPtr c) {
    if (!c || !c->input) return -1;
    PState *p = ps(c);
    c->instate = XML_PARSER_START; c->disableSAX = 0;
    if (c->input->buf) {
        xmlParserInputBufferPtr b = c->input->buf;
        size_t off = (size_t)(c->input->cur - c->input->base);
        while (b->readcallback && !b->error) { int r = xmlParserInputBufferGrow(b, 4000); if (r < 0 || (r == 0 && !b->readcallback)) break; }
        c->input->base = (const xmlChar *)b->buffer->s.c_str(); c->input->cur = c->input->base + off; c->input->end = c->input->base + b->buffer->s.size();
    }
    if (starts(c, "\xEF\xBB\xBF")) c->input->cur += 3;
    if (CUR == 0) { fatal(c, XML_ERR_DOCUMENT_EMPTY, "Document is empty"); return -1; }
    if (starts(c, "<?xml") && blank(NXT(5))) {
        c->input->cur += 5;
        c->input->standalone = -2;
        skipBlanks(c);
        if (starts(c, "version")) { c->input->cur += 7; skipBlanks(c); if (CUR == '=') ++c->input->cur; skipBlanks(c); xmlChar q = CUR; if (q == '"' || q == '\'') { const xmlChar *s = ++c->input->cur; while (CUR && CUR != q) ++c->input->cur; p->ver.assign((const char *)s, c->input->cur - s); if (CUR == q) ++c->input->cur; } }
        else { fatal(c, XML_ERR_VERSION_MISSING, "Malformed declaration expecting version"); }
        c->version = (const xmlChar *)p->ver.c_str();
        skipBlanks(c);
        if (starts(c, "encoding")) {
            c->input->cur += 8; skipBlanks(c); if (CUR == '=') ++c->input->cur; skipBlanks(c); xmlChar q = CUR;
            if (q == '"' || q == '\'') { const xmlChar *s = ++c->input->cur; while (CUR && CUR != q) ++c->input->cur; p->enc.assign((const char *)s, c->input->cur - s); if (CUR == q) ++c->input->cur; }
            xmlCharEncodingHandlerPtr h = xmlFindCharEncodingHandler(p->enc.c_str());
            c->encoding = (const xmlChar *)p->enc.c_str(); if (h == &hUTF8) { c->encoding = (const xmlChar *)p->enc.c_str(); }
            if (!h) { fatal(c, XML_ERR_UNSUPPORTED_ENCODING, "Unsupported encoding"); }
            else if (h != &hUTF8 && c->input->buf && !c->input->buf->encoder) {
                xmlParserInputBufferPtr b = c->input->buf; b->encoder = h;
                size_t off = (size_t)(c->input->cur - c->input->base); str u = b->buffer->s.substr(0, off) + toUTF8(kindOf(h), b->buffer->s.substr(off));
                b->buffer->s = u; c->input->base = (const xmlChar *)b->buffer->s.c_str(); c->input->cur = c->input->base + off; c->input->end = c->input->base + b->buffer->s.size();
            }
        }
        skipBlanks(c);
        if (starts(c, "standalone")) { c->input->cur += 10; skipBlanks(c); if (CUR == '=') ++c->input->cur; skipBlanks(c); xmlChar q = CUR; if (q == '"' || q == '\'') { ++c->input->cur; c->input->standalone = CUR == 'y'; while (CUR && CUR != q) ++c->input->cur; if (CUR == q) ++c->input->cur; } skipBlanks(c); }
        if (CUR == '?' && NXT(1) == '>') c->input->cur += 2; else { fatal(c, XML_ERR_XMLDECL_NOT_FINISHED, "parsing XML declaration: '?>' expected"); while (CUR && CUR != '>') ++c->input->cur; if (CUR) ++c->input->cur; }
        if (c->errNo == XML_ERR_UNSUPPORTED_ENCODING) return -1;
        c->standalone = c->input->standalone;
        skipBlanks(c);
    } else c->version = (const xmlChar *)"1.0";
    if (c->sax && c->sax->startDocument && !c->disableSAX) c->sax->startDocument(c->userData);
    if (c->instate == XML_PARSER_EOF) return -1;
    misc(c);
    if (c->instate == XML_PARSER_EOF) return -1;
    if (starts(c, "<!DOCTYPE")) { int d = 0; while (CUR) { if (CUR == '[') d = 1; if (CUR == ']') d = 0; if (CUR == '>' && !d) { ++c->input->cur; break; } ++c->input->cur; } misc(c); }
    if (CUR != '<') fatal(c, XML_ERR_DOCUMENT_EMPTY, "Start tag expected, '<' not found");
    else {
        c->instate = XML_PARSER_CONTENT;
        int r = elementStart(c);
        if (r == 0) {
            while (CUR != 0 && c->instate != XML_PARSER_EOF && c->nameNr > 0) {
                const xmlChar *before = c->input->cur; unsigned long consumed = c->input->consumed;
                if (CUR == '<' && NXT(1) == '?') pi(c);
                else if (starts(c, "<![CDATA[")) cdata(c);
                else if (CUR == '<' && NXT(1) == '!' && NXT(2) == '-' && NXT(3) == '-') commentNode(c);
                else if (CUR == '<' && NXT(1) == '/') elementEnd(c);
                else if (CUR == '<') elementStart(c);
                else if (CUR == '&') reference(c);
                else charData(c);
                if (c->instate == XML_PARSER_EOF) break;
                bool stuck = c->input->cur == before && c->input->consumed == consumed; shrink(c);
                if (!c->wellFormed && !c->recovery) break;
                if (stuck) { fatal(c, XML_ERR_INTERNAL_ERROR, "detected an error in element content"); break; }
            }
            if (c->nameNr > 0 && c->instate != XML_PARSER_EOF) fatal(c, XML_ERR_TAG_NOT_FINISHED, "Premature end of data in tag");
        }
        if (c->wellFormed && c->instate != XML_PARSER_EOF) {
            misc(c);
            if (CUR != 0) fatal(c, XML_ERR_DOCUMENT_END, "Extra content at the end of the document");
        }
        if (c->instate != XML_PARSER_EOF) c->instate = XML_PARSER_EOF;
    }
    if (c->sax && c->sax->endDocument) c->sax->endDocument(c->userData);
    if (!c->wellFormed) { c->valid = 0; return -1; }
    return 0;
}
}

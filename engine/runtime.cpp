// Runtime of the concolic engine: expression DAG, shadow memory, path conditions, solver (z3), exploration.
#include <z3.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <ctype.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <pthread.h>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <functional>
#include "sym.h"
#include "coro.h"
#include "llvm_ops.h"

typedef uint8_t u8; typedef uint16_t u16; typedef int16_t i16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
#define EXPORT extern "C" __attribute__((used, visibility("default")))

EXPORT u32 _s_args[64];
EXPORT void *_s_callee;
EXPORT u32 _s_ret[8];
EXPORT void *_s_retfn;
u32 _s_args[64]; void *_s_callee; u32 _s_ret[8]; void *_s_retfn;

static const int MAXV = 128;

// ------------------------------------------------------------------ utilities
static void *amap(size_t n, bool shared = false) {
    void *p = mmap(0, n, PROT_READ | PROT_WRITE, (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(99); }
    return p;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static inline u64 mask(unsigned b) { return b >= 64 ? ~0ull : ((1ull << b) - 1); }
static inline i64 sx(u64 v, unsigned b) { if (b >= 64) return (i64)v; u64 m = 1ull << (b - 1); v &= mask(b); return (i64)((v ^ m) - m); }

struct Set256 { u64 w[4];
    bool has(unsigned v) const { return w[v >> 6] >> (v & 63) & 1; }
    void add(unsigned v) { w[v >> 6] |= 1ull << (v & 63); }
    int count() const { return __builtin_popcountll(w[0]) + __builtin_popcountll(w[1]) + __builtin_popcountll(w[2]) + __builtin_popcountll(w[3]); }
    bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); }
    int first() const { for (int i = 0; i < 4; ++i) if (w[i]) return i * 64 + __builtin_ctzll(w[i]); return -1; }
    static Set256 all() { Set256 s; memset(&s, 0xff, sizeof s); return s; }
    static Set256 none() { Set256 s; memset(&s, 0, sizeof s); return s; }
    Set256 operator&(const Set256 &o) const { Set256 s; for (int i = 0; i < 4; ++i) s.w[i] = w[i] & o.w[i]; return s; }
    Set256 operator~() const { Set256 s; for (int i = 0; i < 4; ++i) s.w[i] = ~w[i]; return s; }
    bool operator==(const Set256 &o) const { return !memcmp(w, o.w, sizeof w); }
};
// representative of a class: prefer readable characters
static int pick(const Set256 &s) {
    static const char pref[] = "axi0_ ;\n(){}=+\"'/*<>&,.";
    for (const char *p = pref; *p; ++p) if (s.has((u8)*p)) return (u8)*p;
    for (int v = 33; v < 127; ++v) if (s.has(v)) return v;
    return s.first();
}

// ------------------------------------------------------------------ shared state
struct Item { u16 cfg; u16 bound; u16 n; u16 pad; u32 next; u32 pad2; u64 phash; u8 v[MAXV]; };
struct CfgStat { u64 paths, runs, assumed, queries_dom, queries_z3, sat, unsat, unknown, asserts, asserts_sym, asserts_z3, conc, concmem, diverge, crashes, hangs, overflow, symbranches, enum_trunc, pending; double z3_s; double logpaths; double maxms; u32 stack; u32 nviol; long double covered; u8 minv, maxv; u16 maxvars; };
struct Viol { u16 cfg; u16 n; u32 kind; char label[120]; u8 v[MAXV]; };
struct Wit { u16 cfg; u16 n; u64 out; u8 v[MAXV]; u8 has2; u64 out2; u8 v2[MAXV]; };   // v2: another assignment of the same path, with the output its expressions predict
static const int MAXCFG = 512, MAXVIOL = 4096, MAXFN = 8192, MAXREACH = 64, MAXWIT = 200000;
struct Cache { u64 key; u8 st; u8 n; u8 var[6]; u8 val[6]; };
static const u32 NCACHE = 1 << 18;
struct Shared {
    volatile int mu;
    u32 freeList, used, capItems;
    volatile u32 outstanding;
    volatile int stop;
    CfgStat st[MAXCFG];
    Viol viol[MAXVIOL]; u32 nviol;
    Wit *wit; u32 nwit, witCap; u64 witSeen;
    struct { u64 h; char name[248]; u64 n; } fn[MAXFN]; u32 nfn;
    struct { char label[120]; u64 n; } reach[MAXREACH]; u32 nreach;
    struct { char label[120]; u64 n, sym, z3; } chk[MAXREACH]; u32 nchk;
    struct { char label[160]; u64 n; } concsite[256]; u32 nconcsite;
    Cache cache[NCACHE];
};
static Shared *S;
static Item *items;
static int ncfg;
static void lock() { for (int i = 0; __sync_lock_test_and_set(&S->mu, 1); ++i) if (i > 100) usleep(20); }
static void unlock() { __sync_lock_release(&S->mu); }

// ------------------------------------------------------------------ expression DAG
enum { OP_CONST = 0, OP_VAR, OP_EXTRACT /* imm = low bit */, OP_CONCAT, OP_ZEXT, OP_SEXT, OP_ITE, OP_TABLE, OP_NOT,
       OP_EQ, OP_ULT, OP_ULE, OP_SLT, OP_SLE,
       OP_ADD, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR, OP_AND, OP_OR, OP_XOR };
struct Node { u8 op; u8 bits; i16 var; u32 a, b, c; u64 val; u64 imm; u64 h; u64 *tab; };
static Node *N; static u32 nN;
static u32 *HT; static u32 htMask, htCount;
static u8 *arena; static size_t arenaUsed;
static const size_t NODE_CAP = 40u << 20, ARENA_CAP = 8ull << 30;

static bool active;                    // inside a harness run
static u8 in[MAXV]; static int nvars;  // current input assignment, number of symbolic bytes made so far
static u32 varNode[MAXV];
static Set256 dom[MAXV];
static u32 curCfg, curBound; static int itemN; static u64 expectHash;

static inline u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }

static u64 evalop(const Node &n, u64 a, u64 b, u64 c, unsigned abits) {
    u64 m = mask(n.bits);
    switch (n.op) {
    case OP_EXTRACT: return (a >> n.imm) & m;
    case OP_CONCAT: return ((a << n.imm) | b) & m;       // imm = bits of b
    case OP_ZEXT: return a;
    case OP_SEXT: return (u64)sx(a, abits) & m;
    case OP_ITE: return a ? b : c;
    case OP_NOT: return !a;
    case OP_EQ: return a == b;
    case OP_ULT: return a < b;
    case OP_ULE: return a <= b;
    case OP_SLT: return sx(a, abits) < sx(b, abits);
    case OP_SLE: return sx(a, abits) <= sx(b, abits);
    case OP_ADD: return (a + b) & m;
    case OP_SUB: return (a - b) & m;
    case OP_MUL: return (a * b) & m;
    case OP_UDIV: return b ? a / b : m;
    case OP_SDIV: { i64 x = sx(a, n.bits), y = sx(b, n.bits); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u64)(-(u64)x) & m; return (u64)(x / y) & m; }
    case OP_UREM: return b ? a % b : a;
    case OP_SREM: { i64 x = sx(a, n.bits), y = sx(b, n.bits); if (!y || y == -1) return y ? 0 : a; return (u64)(x % y) & m; }
    case OP_SHL: return b >= n.bits ? 0 : (a << b) & m;
    case OP_LSHR: return b >= n.bits ? 0 : (a >> b);
    case OP_ASHR: return (u64)(sx(a, n.bits) >> (b >= n.bits ? n.bits - 1 : b)) & m;
    case OP_AND: return a & b;
    case OP_OR: return a | b;
    case OP_XOR: return a ^ b;
    }
    return 0;
}

static u64 *table(u32 id) {
    Node &n = N[id];
    if (n.tab) return n.tab;
    u64 *t = (u64 *)(arena + arenaUsed); arenaUsed += 256 * 8;
    if (arenaUsed > ARENA_CAP) { fprintf(stderr, "arena exhausted\n"); _exit(98); }
    if (n.op == OP_VAR) { for (int i = 0; i < 256; ++i) t[i] = i; }
    else {
        u64 *ta = n.a && N[n.a].var >= 0 ? table(n.a) : 0, *tb = n.b && N[n.b].var >= 0 ? table(n.b) : 0, *tc = n.c && N[n.c].var >= 0 ? table(n.c) : 0;
        u64 va = N[n.a].val, vb = N[n.b].val, vc = N[n.c].val; unsigned ab = N[n.a].bits;
        for (int i = 0; i < 256; ++i) t[i] = evalop(n, ta ? ta[i] : va, tb ? tb[i] : vb, tc ? tc[i] : vc, ab);
    }
    N[id].tab = t;
    return t;
}

static void htGrow() {
    u32 ns = (htMask + 1) * 4; u32 *nt = (u32 *)amap(ns * 4ull);
    for (u32 i = 1; i < nN; ++i) if (N[i].op != OP_TABLE) { u32 p = (u32)N[i].h & (ns - 1); while (nt[p]) p = (p + 1) & (ns - 1); nt[p] = i; }
    HT = nt; htMask = ns - 1;
}

static u32 intern(Node &n) {
    u64 h = mix(n.op * 131 + n.bits, n.imm);
    if (n.op == OP_CONST) h = mix(h, n.val);
    h = mix(h, n.a ? N[n.a].h : 7); h = mix(h, n.b ? N[n.b].h : 11); h = mix(h, n.c ? N[n.c].h : 13);
    n.h = h;
    u32 p = (u32)h & htMask;
    while (u32 id = HT[p]) {
        Node &o = N[id];
        if (o.h == h && o.op == n.op && o.bits == n.bits && o.a == n.a && o.b == n.b && o.c == n.c && o.imm == n.imm && (n.op != OP_CONST || o.val == n.val)) return id;
        p = (p + 1) & htMask;
    }
    if (nN >= NODE_CAP) { fprintf(stderr, "node table exhausted\n"); _exit(98); }
    u32 id = nN++; n.tab = 0; N[id] = n; HT[p] = id;
    if (++htCount * 2 > htMask) htGrow();
    return id;
}
static u32 konst(u64 v, unsigned bits) { Node n; memset(&n, 0, sizeof n); n.op = OP_CONST; n.bits = bits; n.var = -1; n.val = v & mask(bits); return intern(n); }
static inline bool isc(u32 id) { return N[id].op == OP_CONST; }

static u32 mk(u8 op, unsigned bits, u32 a, u32 b = 0, u32 c = 0, u64 imm = 0) {
    Node n; n.op = op; n.bits = bits; n.a = a; n.b = b; n.c = c; n.imm = imm; n.tab = 0; n.h = 0;
    i16 v = -1;
    for (u32 k : {a, b, c}) if (k) { i16 w = N[k].var; if (w == -1) continue; if (v == -1) v = w; else if (v != w) v = -2; }
    n.var = v; n.val = 0;
    n.val = evalop(n, N[a].val, N[b].val, N[c].val, N[a].bits);
    if (v == -1) return konst(n.val, bits);
    return intern(n);
}
static u32 mk_extract(u32 a, unsigned lo, unsigned bits) {
    for (;;) {
        Node &n = N[a];
        if (lo == 0 && n.bits == bits) return a;
        if (n.op == OP_CONST) return konst(n.val >> lo, bits);
        if (n.op == OP_ZEXT) { unsigned sb = N[n.a].bits; if (lo >= sb) return konst(0, bits); if (lo + bits <= sb) { a = n.a; continue; }
            if (lo == 0) return mk(OP_ZEXT, bits, n.a); break; }
        if (n.op == OP_CONCAT) { unsigned lb = n.imm; if (lo >= lb) { a = n.a; lo -= lb; continue; } if (lo + bits <= lb) { a = n.b; continue; } break; }
        if (n.op == OP_EXTRACT) { lo += n.imm; a = n.a; continue; }
        if (n.op == OP_SEXT) { unsigned sb = N[n.a].bits; if (lo + bits <= sb) { a = n.a; continue; } break; }
        if ((n.op == OP_AND || n.op == OP_OR || n.op == OP_XOR)) { u32 x = mk_extract(n.a, lo, bits), y = mk_extract(n.b, lo, bits); return mk(N[a].op, bits, x, y); }
        if (n.op == OP_ITE && (isc(n.b) || isc(n.c))) { u32 cnd = n.a, bb = n.b, cc = n.c; u32 x = mk_extract(bb, lo, bits), y = mk_extract(cc, lo, bits); if (x == y) return x; return mk(OP_ITE, bits, cnd, x, y); }
        break;
    }
    return mk(OP_EXTRACT, bits, a, 0, 0, lo);
}
static u32 mk_zext(u32 a, unsigned bits) {
    if (N[a].bits == bits) return a;
    if (N[a].op == OP_ZEXT) a = N[a].a;
    return mk(OP_ZEXT, bits, a);
}
static u32 mk_not(u32 a) { if (N[a].op == OP_NOT) return N[a].a; return mk(OP_NOT, 1, a); }
static u32 mk_eq(u32 a, u32 b) {
    if (a == b) return konst(1, 1);
    if (isc(a)) std::swap(a, b);
    if (isc(b)) {
        if (N[a].bits == 1) return N[b].val ? a : mk_not(a);
        if (N[a].op == OP_ZEXT) { u32 x = N[a].a; if (N[b].val & ~mask(N[x].bits)) return konst(0, 1); return mk_eq(x, konst(N[b].val, N[x].bits)); }
        if (N[a].op == OP_ITE && isc(N[a].b) && isc(N[a].c)) {
            bool p = N[N[a].b].val == N[b].val, q = N[N[a].c].val == N[b].val;
            if (p && q) return konst(1, 1); if (!p && !q) return konst(0, 1);
            return p ? N[a].a : mk_not(N[a].a);
        }
        if (N[a].op == OP_CONCAT) { u32 hi = N[a].a, lo = N[a].b; unsigned lb = N[a].imm; u64 v = N[b].val;
            u32 x = mk_eq(hi, konst(v >> lb, N[hi].bits)), y = mk_eq(lo, konst(v, lb));
            if (isc(x)) return N[x].val ? y : x; if (isc(y)) return N[y].val ? x : y;
            return mk(OP_AND, 1, x, y); }
    }
    if (N[a].op == OP_ZEXT && N[b].op == OP_ZEXT && N[N[a].a].bits == N[N[b].a].bits) return mk_eq(N[a].a, N[b].a);
    if (a > b) std::swap(a, b);
    return mk(OP_EQ, 1, a, b);
}
// an expression whose only byte is already pinned is concrete
static inline u32 live(u32 id) {
    if (!id) return 0;
    Node &n = N[id];
    if (n.var == -1) return 0;
    if (n.var >= 0 && dom[n.var].count() == 1) return 0;
    return id;
}
static inline u32 opnd(u32 s, u64 v, unsigned bits) {
    if (s) {
        if (N[s].bits == bits) return s;
        if (N[s].bits > bits) return mk_extract(s, 0, bits);
        return mk_zext(s, bits);
    }
    return konst(v, bits);
}

// ------------------------------------------------------------------ evidence helpers (local, merged at the end of a run)
static std::vector<std::pair<const char *, u64>> fnHits;
static void hitfn(const char *f) { for (auto &p : fnHits) if (p.first == f) { ++p.second; return; } fnHits.push_back({f, 1}); }
struct Local { u64 dom, z3, sat, unsat, unknown, asserts, asserts_sym, asserts_z3, conc, concmem, symbr, trunc, diverge; double z3s; } L;

// ------------------------------------------------------------------ path condition
struct Con { i16 var; u32 node; bool taken; Set256 set; };          // var>=0: unary (set); else multi (node == taken)
static std::vector<Con> cons;
static int firstMulti[MAXV];                                         // index of the first multi constraint over the byte
struct Alt { u32 rec; i16 var; Set256 set; u32 node; bool val; };     // alternative at record `rec`
static std::vector<Alt> alts;
static std::vector<u32> recCon;                                      // cons.size() before record i
static std::vector<u64> recHash;
static u64 pathHash;
static u32 nrec() { return (u32)recCon.size(); }

static void varsOf(u32 id, Set256 &vs, std::vector<u32> &seen) {
    Node &n = N[id];
    if (n.var == -1) return;
    if (n.var >= 0) { vs.add(n.var); return; }
    for (u32 s : seen) if (s == id) return;
    seen.push_back(id);
    if (n.a) varsOf(n.a, vs, seen); if (n.b) varsOf(n.b, vs, seen); if (n.c) varsOf(n.c, vs, seen);
}
static Set256 vars(u32 id) { Set256 s = Set256::none(); std::vector<u32> seen; varsOf(id, s, seen); return s; }

static void begin_rec(u64 tag) {
    recCon.push_back(cons.size());
    recHash.push_back(pathHash);
    if (recCon.size() - 1 == curBound && expectHash && expectHash != pathHash) ++L.diverge;
    pathHash = mix(pathHash, tag);
}
static void add_unary(int v, const Set256 &s) { Con c; c.var = v; c.node = 0; c.taken = true; c.set = s; cons.push_back(c); dom[v] = dom[v] & s; }
static void add_multi(u32 node, bool taken) {
    Con c; c.var = -1; c.node = node; c.taken = taken; c.set = vars(node);
    for (int v = 0; v < nvars; ++v) if (c.set.has(v) && firstMulti[v] > (int)cons.size()) firstMulti[v] = cons.size();
    cons.push_back(c);
}

// ------------------------------------------------------------------ z3
static Z3_context zc; static Z3_solver zs; static Z3_sort bv8;
static u32 *zmemoKey; 
static std::vector<Z3_ast> zmemo;
static void zerr(Z3_context, Z3_error_code e) { fprintf(stderr, "z3 error %d\n", e); }
static void z3init() {
    Z3_config c = Z3_mk_config(); Z3_set_param_value(c, "model", "true");
    zc = Z3_mk_context(c); Z3_del_config(c);
    Z3_set_error_handler(zc, zerr);
    bv8 = Z3_mk_bv_sort(zc, 8);
    zs = Z3_mk_simple_solver(zc); Z3_solver_inc_ref(zc, zs);
    Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p);
    Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), 40000000);   // a resource limit, not a timer: the timer needs a thread
    Z3_solver_set_params(zc, zs, p);
    // warm up
    Z3_solver_push(zc, zs);
    Z3_ast x = Z3_mk_const(zc, Z3_mk_int_symbol(zc, 0), bv8);
    Z3_solver_assert(zc, zs, Z3_mk_bvult(zc, x, Z3_mk_unsigned_int64(zc, 5, bv8)));
    Z3_solver_check(zc, zs);
    Z3_solver_pop(zc, zs, 1);
}
static Z3_ast zvar(int v) { return Z3_mk_const(zc, Z3_mk_int_symbol(zc, v), bv8); }
static Z3_ast zset(int v, const Set256 &s) {
    std::vector<Z3_ast> o; Z3_ast x = zvar(v);
    for (int i = 0; i < 256;) {
        if (!s.has(i)) { ++i; continue; }
        int j = i; while (j < 255 && s.has(j + 1)) ++j;
        Z3_ast lo = Z3_mk_unsigned_int64(zc, i, bv8), hi = Z3_mk_unsigned_int64(zc, j, bv8);
        Z3_ast cc[2] = {Z3_mk_bvuge(zc, x, lo), Z3_mk_bvule(zc, x, hi)};
        o.push_back(i == j ? Z3_mk_eq(zc, x, lo) : Z3_mk_and(zc, 2, cc));
        i = j + 1;
    }
    if (o.empty()) return Z3_mk_false(zc);
    return o.size() == 1 ? o[0] : Z3_mk_or(zc, o.size(), o.data());
}
static Z3_ast zb(Z3_ast boolean) { Z3_sort s1 = Z3_mk_bv_sort(zc, 1); return Z3_mk_ite(zc, boolean, Z3_mk_unsigned_int64(zc, 1, s1), Z3_mk_unsigned_int64(zc, 0, s1)); }
static Z3_ast zn(u32 id) {
    if (zmemo.size() <= id) zmemo.resize(nN + 16, (Z3_ast)0);
    if (zmemo[id]) return zmemo[id];
    Node n = N[id];
    Z3_sort so = Z3_mk_bv_sort(zc, n.bits);
    Z3_ast r = 0;
    if (n.op == OP_CONST) r = Z3_mk_unsigned_int64(zc, n.val, so);
    else if (n.op == OP_VAR) r = zvar(n.imm);
    else if (n.op == OP_TABLE) {
        // table over one byte, run-length encoded
        Z3_ast x = zvar(n.var); u64 *t = n.tab;
        r = Z3_mk_unsigned_int64(zc, t[255], so);
        for (int i = 254; i >= 0; --i) if (t[i] != t[i + 1]) r = Z3_mk_ite(zc, Z3_mk_bvule(zc, x, Z3_mk_unsigned_int64(zc, i, bv8)), Z3_mk_unsigned_int64(zc, t[i], so), r);
    } else {
        Z3_ast a = n.a ? zn(n.a) : 0, b = n.b ? zn(n.b) : 0, c = n.c ? zn(n.c) : 0;
        Z3_ast one1 = Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1));
        switch (n.op) {
        case OP_EXTRACT: r = Z3_mk_extract(zc, n.imm + n.bits - 1, n.imm, a); break;
        case OP_CONCAT: r = Z3_mk_concat(zc, a, b); break;
        case OP_ZEXT: r = Z3_mk_zero_ext(zc, n.bits - N[n.a].bits, a); break;
        case OP_SEXT: r = Z3_mk_sign_ext(zc, n.bits - N[n.a].bits, a); break;
        case OP_ITE: r = Z3_mk_ite(zc, Z3_mk_eq(zc, a, one1), b, c); break;
        case OP_NOT: r = Z3_mk_bvnot(zc, a); break;
        case OP_EQ: r = zb(Z3_mk_eq(zc, a, b)); break;
        case OP_ULT: r = zb(Z3_mk_bvult(zc, a, b)); break;
        case OP_ULE: r = zb(Z3_mk_bvule(zc, a, b)); break;
        case OP_SLT: r = zb(Z3_mk_bvslt(zc, a, b)); break;
        case OP_SLE: r = zb(Z3_mk_bvsle(zc, a, b)); break;
        case OP_ADD: r = Z3_mk_bvadd(zc, a, b); break;
        case OP_SUB: r = Z3_mk_bvsub(zc, a, b); break;
        case OP_MUL: r = Z3_mk_bvmul(zc, a, b); break;
        case OP_UDIV: r = Z3_mk_bvudiv(zc, a, b); break;
        case OP_SDIV: r = Z3_mk_bvsdiv(zc, a, b); break;
        case OP_UREM: r = Z3_mk_bvurem(zc, a, b); break;
        case OP_SREM: r = Z3_mk_bvsrem(zc, a, b); break;
        case OP_SHL: r = Z3_mk_bvshl(zc, a, b); break;
        case OP_LSHR: r = Z3_mk_bvlshr(zc, a, b); break;
        case OP_ASHR: r = Z3_mk_bvashr(zc, a, b); break;
        case OP_AND: r = Z3_mk_bvand(zc, a, b); break;
        case OP_OR: r = Z3_mk_bvor(zc, a, b); break;
        case OP_XOR: r = Z3_mk_bvxor(zc, a, b); break;
        }
    }
    if (zmemo.size() <= id) zmemo.resize(nN + 16, (Z3_ast)0);
    zmemo[id] = r;
    return r;
}

// Is (first `upto` constraints) /\ extra satisfiable?  extra: node==val, or byte `ev` in `eset`.
// On sat fills `out` (a full assignment extending the current input).  1 sat, 0 unsat, -1 unknown
static int solve(u32 upto, u32 enode, bool eval_, int ev, const Set256 *eset, u8 *out, bool force = false) {
    Set256 comp = Set256::none();
    if (ev >= 0) comp.add(ev); else comp = vars(enode);
    std::vector<u32> used; std::vector<char> inUse(upto, 0);
    for (bool ch = true; ch;) {
        ch = false;
        for (u32 i = 0; i < upto; ++i) if (cons[i].var < 0 && !inUse[i] && !(cons[i].set & comp).empty()) {
            inUse[i] = 1; used.push_back(i); ch = true;
            for (int k = 0; k < 4; ++k) comp.w[k] |= cons[i].set.w[k];
        }
    }
    Set256 d[MAXV];
    for (int v = 0; v < nvars; ++v) d[v] = Set256::all();
    for (u32 i = 0; i < upto; ++i) if (cons[i].var >= 0) d[cons[i].var] = d[cons[i].var] & cons[i].set;
    if (ev >= 0) { d[ev] = d[ev] & *eset; if (d[ev].empty()) { ++L.dom; return 0; } }
    if (out) memcpy(out, in, MAXV);
    if (used.empty() && ev >= 0) { ++L.dom; if (out) out[ev] = pick(d[ev]); return 1; }
    if (!force && used.empty() && N[enode].var >= 0) {
        int v = N[enode].var; u64 *t = table(enode); Set256 s = Set256::none();
        for (int i = 0; i < 256; ++i) if (d[v].has(i) && (t[i] & 1) == (u64)eval_) s.add(i);
        ++L.dom;
        if (s.empty()) return 0;
        if (out) out[v] = pick(s);
        return 1;
    }
    // cache
    std::sort(used.begin(), used.end());
    u64 key = 0x1234567;
    int ncomp = 0;
    for (int v = 0; v < nvars; ++v) if (comp.has(v)) { ++ncomp; key = mix(key, v); for (int k = 0; k < 4; ++k) key = mix(key, d[v].w[k]); }
    for (u32 i : used) { key = mix(key, N[cons[i].node].h); key = mix(key, cons[i].taken); }
    if (ev < 0) { key = mix(key, N[enode].h); key = mix(key, eval_); }
    if (!key) key = 1;
    Cache &ce = S->cache[key & (NCACHE - 1)];
    {
        Cache c = ce;
        if (c.key == key && c.st) {
            if (c.st == 1) { if (out) for (int i = 0; i < c.n; ++i) out[c.var[i]] = c.val[i]; if (ce.key == key) return 1; }
            else return 0;
        }
    }
    double t0 = now();
    Z3_solver_push(zc, zs);
    for (int v = 0; v < nvars; ++v) if (comp.has(v) && !(d[v] == Set256::all())) Z3_solver_assert(zc, zs, zset(v, d[v]));
    Z3_sort s1 = Z3_mk_bv_sort(zc, 1);
    for (u32 i : used) Z3_solver_assert(zc, zs, Z3_mk_eq(zc, zn(cons[i].node), Z3_mk_unsigned_int64(zc, cons[i].taken, s1)));
    if (ev < 0) Z3_solver_assert(zc, zs, Z3_mk_eq(zc, zn(enode), Z3_mk_unsigned_int64(zc, eval_, s1)));
    Z3_lbool r = Z3_solver_check(zc, zs);
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res == 1) {
        Z3_model m = Z3_solver_get_model(zc, zs); Z3_model_inc_ref(zc, m);
        Cache c; memset(&c, 0, sizeof c); c.key = key; c.st = 1; bool fit = ncomp <= 6;
        for (int v = 0; v < nvars; ++v) if (comp.has(v)) {
            Z3_ast val; uint64_t x = 0;
            if (Z3_model_eval(zc, m, zvar(v), true, &val)) Z3_get_numeral_uint64(zc, val, &x);
            if (out) out[v] = (u8)x;
            if (fit) { c.var[c.n] = v; c.val[c.n] = (u8)x; ++c.n; }
        }
        if (fit) { ce.key = 0; c.key = 0; ce = c; __sync_synchronize(); ce.key = key; }
        Z3_model_dec_ref(zc, m);
    } else if (res == 0) { ce.key = 0; ce.st = 2; __sync_synchronize(); ce.key = key; }
    Z3_solver_pop(zc, zs, 1);
    ++L.z3; L.z3s += now() - t0;
    if (res == 1) ++L.sat; else if (res == 0) ++L.unsat; else ++L.unknown;
    return res;
}

// decide the assertion with z3 itself: every constraint of the path over the bytes the assertion depends on
static int z3assert(u32 node, u8 *out) {
    return solve(cons.size(), node, false, -1, 0, out, true);
}

// record a decision over a boolean expression
static void decide(u32 node, bool taken, const char *f) {
    node = live(node);
    if (!node || !active) return;
    ++L.symbr;
    int v = N[node].var;
    if (v >= 0) {
        u64 *t = table(node);
        Set256 T = Set256::none();
        for (int i = 0; i < 256; ++i) if (t[i] & 1) T.add(i);
        Set256 cur = (taken ? T : ~T) & dom[v], alt = (taken ? ~T : T) & dom[v];
        if (alt.empty()) return;
        hitfn(f);
        begin_rec(mix(N[node].h, taken));
        Alt a; a.rec = nrec() - 1; a.var = v; a.set = alt; a.node = 0; a.val = false; alts.push_back(a);
        add_unary(v, cur);
        return;
    }
    hitfn(f);
    begin_rec(mix(N[node].h, taken));
    Alt a; a.rec = nrec() - 1; a.var = -1; a.node = node; a.val = !taken; alts.push_back(a);
    add_multi(node, taken);
}
// force an expression to be concrete, splitting on every feasible value
static void concretize(u32 node, u64 val, const char *f, int why) {
    node = live(node);
    if (!node || !active) return;
    int v = N[node].var;
    u64 m = mask(N[node].bits);
    val &= m;
    if (v >= 0) {
        u64 *t = table(node);
        Set256 cur = Set256::none();
        std::vector<std::pair<u64, Set256>> others;
        for (int i = 0; i < 256; ++i) if (dom[v].has(i)) {
            if (t[i] == val) { cur.add(i); continue; }
            bool f2 = false;
            for (auto &o : others) if (o.first == t[i]) { o.second.add(i); f2 = true; break; }
            if (!f2) { Set256 s = Set256::none(); s.add(i); others.push_back({t[i], s}); }
        }
        if (others.empty()) return;
        if (why) ++L.conc;
        hitfn(f);
        begin_rec(mix(N[node].h, val));
        for (auto &o : others) { Alt a; a.rec = nrec() - 1; a.var = v; a.set = o.second; a.node = 0; a.val = false; alts.push_back(a); }
        add_unary(v, cur);
        return;
    }
    // multi-byte: enumerate the feasible values with the solver
    std::vector<u64> vals;
    u32 base = cons.size();
    u32 ne = mk_not(mk_eq(node, konst(val, N[node].bits)));
    u32 savedCons = cons.size();
    u8 o[MAXV];
    std::vector<u32> eqs;
    int guard = 0;
    int saveFirst[MAXV]; memcpy(saveFirst, firstMulti, sizeof saveFirst);
    while (guard++ < 64) {
        int r = solve(cons.size(), ne, true, -1, 0, o);
        if (r < 0) { ++L.unknown; break; }
        if (!r) break;
        // evaluate node under o
        std::function<u64(u32)> ev = [&](u32 id) -> u64 { Node &n = N[id]; if (n.op == OP_CONST) return n.val; if (n.op == OP_VAR) return o[n.imm]; if (n.var >= 0) return table(id)[o[n.var]]; u64 a = n.a ? ev(n.a) : 0, b = n.b ? ev(n.b) : 0, c = n.c ? ev(n.c) : 0; return evalop(N[id], a, b, c, N[N[id].a].bits); };
        u64 x = ev(node);
        u32 e = mk_eq(node, konst(x, N[node].bits));
        eqs.push_back(e);
        add_multi(e, false);
    }
    if (guard >= 64) ++L.trunc;
    cons.resize(savedCons); memcpy(firstMulti, saveFirst, sizeof saveFirst);
    if (eqs.empty()) return;
    if (why) ++L.conc;
    hitfn(f);
    begin_rec(mix(N[node].h, val));
    for (u32 e : eqs) { Alt a; a.rec = nrec() - 1; a.var = -1; a.node = e; a.val = true; alts.push_back(a); }
    add_multi(mk_eq(node, konst(val, N[node].bits)), true);
    (void)base;
}

// ------------------------------------------------------------------ shadow memory
static const u32 PT = 1 << 16;
struct Page { u64 key; u32 *sh; u32 cnt; };
static Page *pages; static u8 *filt;      // open addressing by page number; filt = quick filter
static u64 lastKey = ~0ull; static Page *lastPage;
static inline u32 ph(u64 k) { return (u32)((k * 0x9E3779B97F4A7C15ull) >> 48); }
static Page *findPage(u64 k) {
    if (lastKey == k) return lastPage;
    u32 p = ph(k);
    while (pages[p].key) { if (pages[p].key == k) { lastKey = k; lastPage = &pages[p]; return lastPage; } p = (p + 1) & (PT - 1); }
    return 0;
}
static inline bool mayHave(u64 a) { return filt[(a >> 12) & 0xffff]; }
static Page *getPage(u64 k) {
    Page *q = findPage(k); if (q) return q;
    u32 p = ph(k); while (pages[p].key) p = (p + 1) & (PT - 1);
    pages[p].key = k; pages[p].sh = (u32 *)amap(4096 * 4); pages[p].cnt = 0; filt[k & 0xffff] = 1;
    lastKey = k; lastPage = &pages[p];
    return lastPage;
}
static inline u32 getb(u64 a) {
    if (likely(!mayHave(a))) return 0;
    Page *p = findPage(a >> 12); if (!p) return 0;
    u32 s = p->sh[a & 4095];
    if (s && N[s].val != *(u8 *)a) { p->sh[a & 4095] = 0; return 0; }
    return s;
}
static inline void setb(u64 a, u32 s) {
    if (!s) { if (likely(!mayHave(a))) return; Page *p = findPage(a >> 12); if (p) p->sh[a & 4095] = 0; return; }
    getPage(a >> 12)->sh[a & 4095] = s;
}
static void clearRange(u64 a, u64 n) {
    while (n) {
        u64 k = a >> 12, off = a & 4095, c = std::min<u64>(n, 4096 - off);
        if (mayHave(a)) { Page *p = findPage(k); if (p) memset(p->sh + off, 0, c * 4); }
        a += c; n -= c;
    }
}
static bool rangeMay(u64 a, u64 n) { if (!n) return false; for (u64 k = a >> 12; k <= (a + n - 1) >> 12; ++k) if (filt[k & 0xffff]) return true; return false; }
static void copyRange(u64 d, u64 s, u64 n) {
    if (!n || d == s) return;
    if (!rangeMay(s, n)) { clearRange(d, n); return; }
    if (d < s) for (u64 i = 0; i < n; ++i) setb(d + i, getb(s + i));
    else for (u64 i = n; i-- > 0;) setb(d + i, getb(s + i));
}

static bool readable(u64 a, unsigned n) {
    // probe through write(2) to a pipe-less sink: use process_vm-free approach
    static int fd[2] = {-1, -1};
    if (fd[0] < 0) { if (pipe(fd)) return false; }
    ssize_t r = ::write(fd[1], (void *)a, n);
    if (r > 0) { char b[16]; ssize_t q = ::read(fd[0], b, r); (void)q; }
    return r == (ssize_t)n;
}

static u32 loadBytes(u64 a, unsigned n, unsigned bits) {
    u32 s[8]; bool any = false;
    for (unsigned i = 0; i < n && i < 8; ++i) { s[i] = getb(a + i); if (s[i]) any = true; }
    if (!any) return 0;
    // whole-value reconstruction
    u32 r = s[0] ? s[0] : konst(*(u8 *)a, 8);
    if (n > 1) {
        Node &f = N[r];
        if (f.op == OP_EXTRACT && f.imm == 0 && N[f.a].bits == n * 8) {
            bool all = true;
            for (unsigned i = 1; i < n; ++i) if (!s[i] || N[s[i]].op != OP_EXTRACT || N[s[i]].a != f.a || N[s[i]].imm != i * 8) { all = false; break; }
            if (all) { r = f.a; goto done; }
        }
        // zext pattern: upper bytes constant zero
        unsigned top = n;
        while (top > 1 && !s[top - 1] && *(u8 *)(a + top - 1) == 0) --top;
        for (unsigned i = 1; i < top; ++i) { u32 b = s[i] ? s[i] : konst(*(u8 *)(a + i), 8); r = mk(OP_CONCAT, N[r].bits + 8, b, r, 0, N[r].bits); }
        if (top < n) r = mk_zext(r, n * 8);
    }
done:
    if (bits < N[r].bits) r = mk_extract(r, 0, bits);
    return live(r);
}

EXPORT u32 _sr_load(void *p, u32 ps, u32 n, u32 bits, u64 val, const char *f) {
    u64 a = (u64)p;
    if (unlikely(ps)) {
        ps = live(ps);
        if (ps && active) {
            int v = N[ps].var;
            bool good = v >= 0;
            if (good) {
                u64 *t = table(ps);
                // all feasible addresses must be readable and hold concrete data
                u64 lastPg = ~0ull; bool lastOk = false;
                for (int i = 0; i < 256 && good; ++i) if (dom[v].has(i)) {
                    u64 x = t[i];
                    if ((x >> 12) != lastPg || ((x + n - 1) >> 12) != lastPg) { lastOk = readable(x, n); lastPg = x >> 12; }
                    if (!lastOk) good = false;
                    else for (unsigned k = 0; k < n; ++k) if (getb(x + k)) good = false;
                }
                if (good) {
                    Node nn; memset(&nn, 0, sizeof nn);
                    nn.op = OP_TABLE; nn.bits = bits; nn.var = v; nn.val = val;
                    u64 *nt = (u64 *)(arena + arenaUsed); arenaUsed += 2048;
                    u64 h = 99;
                    bool konstant = true;
                    for (int i = 0; i < 256; ++i) {
                        u64 x = val;
                        if (dom[v].has(i)) { x = 0; memcpy(&x, (void *)t[i], n); x &= mask(bits); if (x != val) konstant = false; }
                        nt[i] = x; h = mix(h, x);
                    }
                    if (konstant) return 0;
                    nn.tab = nt; nn.h = mix(h, v);
                    u32 id = nN++; N[id] = nn;
                    return id;
                }
            }
            concretize(ps, a, f, 0);
        }
    }
    if (likely(!mayHave(a) && !mayHave(a + n - 1))) return 0;
    return loadBytes(a, n, bits);
}
EXPORT void _sr_store(void *p, u32 ps, u32 n, u32 bits, u32 s, u64 val, const char *f) {
    u64 a = (u64)p;
    if (unlikely(ps)) concretize(ps, a, f, 0);
    if (likely(!s)) { if (likely(!mayHave(a) && !mayHave(a + n - 1))) return; clearRange(a, n); return; }
    s = live(s);
    if (!s) { clearRange(a, n); return; }
    if (N[s].bits < n * 8) s = mk_zext(s, n * 8);
    for (unsigned i = 0; i < n; ++i) { u32 b = mk_extract(s, i * 8, 8); setb(a + i, isc(b) ? 0 : b); }
}
EXPORT void _sr_memcpy(void *d, void *s, u64 n) { copyRange((u64)d, (u64)s, n); }
EXPORT void _sr_memmove(void *d, void *s, u64 n) { copyRange((u64)d, (u64)s, n); }
EXPORT void _sr_memset(void *d, u32 s, u64 n) { if (live(s)) { u32 b = mk_extract(s, 0, 8); for (u64 i = 0; i < n; ++i) setb((u64)d + i, b); } else clearRange((u64)d, n); }
static void concBytes(u64 a, u64 n, const char *f) {
    if (!rangeMay(a, n)) return;
    for (u64 i = 0; i < n; ++i) { u32 s = live(getb(a + i)); if (s) { ++L.concmem; concretize(s, *(u8 *)(a + i), f, 1); setb(a + i, 0); } }
}
EXPORT void _sr_concmem(void *p, u64 n, const char *f) { u64 a = (u64)p; if (likely(!mayHave(a) && !mayHave(a + n - 1))) return; concBytes(a, n, f); }
EXPORT void _sr_clearmem(void *p, u64 n) { u64 a = (u64)p; if (likely(!mayHave(a) && !mayHave(a + n - 1))) return; clearRange(a, n); }

// ------------------------------------------------------------------ instruction semantics
EXPORT u32 _sr_bin(u32 op, u32 bits, u32 sa, u64 va, u32 sb, u64 vb) {
    sa = live(sa); sb = live(sb);
    if (!sa && !sb) return 0;
    u32 a = opnd(sa, va, bits), b = opnd(sb, vb, bits);
    u64 m = mask(bits);
    switch (op) {
    case IR_Add: if (isc(b) && !N[b].val) return a; if (isc(a) && !N[a].val) return b;
        if (isc(b) && N[a].op == OP_ADD && isc(N[a].b)) return mk(OP_ADD, bits, N[a].a, konst(N[N[a].b].val + N[b].val, bits));
        return mk(OP_ADD, bits, a, b);
    case IR_Sub: if (isc(b)) { if (!N[b].val) return a; return _sr_bin(IR_Add, bits, a, 0, 0, (0 - N[b].val) & m); } if (a == b) return 0; return mk(OP_SUB, bits, a, b);
    case IR_Mul: if (isc(b) && N[b].val == 1) return a; if (isc(a) && N[a].val == 1) return b; if ((isc(b) && !N[b].val) || (isc(a) && !N[a].val)) return 0; return mk(OP_MUL, bits, a, b);
    case IR_UDiv: return mk(OP_UDIV, bits, a, b);
    case IR_SDiv: return mk(OP_SDIV, bits, a, b);
    case IR_URem: return mk(OP_UREM, bits, a, b);
    case IR_SRem: return mk(OP_SREM, bits, a, b);
    case IR_Shl: return mk(OP_SHL, bits, a, b);
    case IR_LShr: if (isc(b) && N[b].val < bits) { u32 x = mk_extract(a, N[b].val, bits - N[b].val); if (isc(x)) return 0; return mk_zext(x, bits); } return mk(OP_LSHR, bits, a, b);
    case IR_AShr: return mk(OP_ASHR, bits, a, b);
    case IR_And:
        if (a == b) return a;
        if (isc(a)) std::swap(a, b);
        if (isc(b)) { u64 k = N[b].val; if (k == m) return a; if (!k) return 0;
            if (((k + 1) & k) == 0) { unsigned w = __builtin_popcountll(k); u32 x = mk_extract(a, 0, w); if (isc(x)) return 0; return mk_zext(x, bits); } }
        return mk(OP_AND, bits, a, b);
    case IR_Or:
        if (a == b) return a;
        if (isc(a)) std::swap(a, b);
        if (isc(b)) { if (!N[b].val) return a; if (N[b].val == m) return 0; }
        return mk(OP_OR, bits, a, b);
    case IR_Xor:
        if (a == b) return 0;
        if (isc(a)) std::swap(a, b);
        if (isc(b) && !N[b].val) return a;
        if (bits == 1 && isc(b)) return mk_not(a);
        return mk(OP_XOR, bits, a, b);
    }
    return 0;
}
static u32 dropc(u32 x) { return x && isc(x) ? 0 : x; }
EXPORT u32 _sr_cmp(u32 pred, u32 bits, u32 sa, u64 va, u32 sb, u64 vb) {
    sa = live(sa); sb = live(sb);
    if (!sa && !sb) return 0;
    u32 a = opnd(sa, va, bits), b = opnd(sb, vb, bits);
    u32 r;
    switch (pred) {
    case P_EQ: r = mk_eq(a, b); break;
    case P_NE: r = mk_not(mk_eq(a, b)); break;
    case P_UGT: r = mk(OP_ULT, 1, b, a); break;
    case P_UGE: r = mk(OP_ULE, 1, b, a); break;
    case P_ULT: r = mk(OP_ULT, 1, a, b); break;
    case P_ULE: r = mk(OP_ULE, 1, a, b); break;
    case P_SGT: r = mk(OP_SLT, 1, b, a); break;
    case P_SGE: r = mk(OP_SLE, 1, b, a); break;
    case P_SLT: r = mk(OP_SLT, 1, a, b); break;
    default: r = mk(OP_SLE, 1, a, b); break;
    }
    return dropc(r);
}
EXPORT u32 _sr_cast(u32 kind, u32 sb, u32 db, u32 s, u64 v) {
    s = live(s); if (!s) return 0;
    s = opnd(s, v, sb);
    if (kind == 0) return dropc(mk_extract(s, 0, db));
    if (kind == 1) return mk_zext(s, db);
    return mk(OP_SEXT, db, s);
}
EXPORT u32 _sr_select(u32 sc, u64 c, u32 sa, u64 va, u32 sb, u64 vb, u32 bits) {
    sc = live(sc); sa = live(sa); sb = live(sb);
    if (!sc) return c ? sa : sb;
    u32 a = opnd(sa, va, bits), b = opnd(sb, vb, bits);
    if (a == b) return dropc(a);
    if (bits == 1) {
        if (isc(a)) return dropc(N[a].val ? _sr_bin(IR_Or, 1, sc, c, b, 0) : _sr_bin(IR_And, 1, mk_not(sc), !c, b, 0));
        if (isc(b)) return dropc(N[b].val ? _sr_bin(IR_Or, 1, mk_not(sc), !c, a, 0) : _sr_bin(IR_And, 1, sc, c, a, 0));
    }
    return mk(OP_ITE, bits, sc, a, b);
}
EXPORT u32 _sr_gep(u32 accS, u64 accV, u32 is, u64 iv, u64 scale, u32 ibits) {
    accS = live(accS); is = live(is);
    u32 t = 0;
    if (is) {
        u32 x = N[is].bits == ibits ? is : opnd(is, iv, ibits);
        if (ibits < 64) x = mk(OP_SEXT, 64, x); else if (ibits > 64) x = mk_extract(x, 0, 64);
        t = scale == 1 ? x : mk(OP_MUL, 64, x, konst(scale, 64));
    }
    if (!accS && !t) return 0;
    return _sr_bin(IR_Add, 64, accS, accV, t, iv * scale);
}
EXPORT void _sr_branch(u32 s, u64 taken, const char *f) { if (s) decide(s, taken & 1, f); }
EXPORT void _sr_switch(u32 s, u64 val, u32 bits, u32 n, const u64 *vals, const u32 *dest, const char *f) {
    s = live(s); if (!s || !active) return;
    s = opnd(s, val, bits);
    ++L.symbr;
    u32 cur = 0, maxd = 0;
    for (u32 i = 0; i < n; ++i) { if (vals[i] == val) cur = dest[i]; if (dest[i] > maxd) maxd = dest[i]; }
    int v = N[s].var;
    if (v >= 0) {
        u64 *t = table(s);
        std::vector<Set256> sets(maxd + 1, Set256::none());
        for (int i = 0; i < 256; ++i) if (dom[v].has(i)) { u32 d = 0; for (u32 k = 0; k < n; ++k) if (vals[k] == t[i]) { d = dest[k]; break; } sets[d].add(i); }
        bool other = false;
        for (u32 d = 0; d <= maxd; ++d) if (d != cur && !sets[d].empty()) other = true;
        if (!other) return;
        hitfn(f);
        begin_rec(mix(N[s].h, cur + 1000));
        for (u32 d = 0; d <= maxd; ++d) if (d != cur && !sets[d].empty()) { Alt a; a.rec = nrec() - 1; a.var = v; a.set = sets[d]; a.node = 0; a.val = false; alts.push_back(a); }
        add_unary(v, sets[cur]);
        return;
    }
    // multi: one boolean per destination
    std::vector<u32> e(maxd + 1, 0);
    u32 any = 0;
    for (u32 k = 0; k < n; ++k) {
        u32 q = mk_eq(s, konst(vals[k], bits));
        if (dest[k]) e[dest[k]] = e[dest[k]] ? mk(OP_OR, 1, e[dest[k]], q) : q;
        else continue;
        any = any ? mk(OP_OR, 1, any, q) : q;
    }
    e[0] = any ? mk_not(any) : konst(1, 1);
    hitfn(f);
    begin_rec(mix(N[s].h, cur + 1000));
    for (u32 d = 0; d <= maxd; ++d) if (d != cur && !isc(e[d])) { Alt a; a.rec = nrec() - 1; a.var = -1; a.node = e[d]; a.val = true; alts.push_back(a); }
    if (!isc(e[cur])) add_multi(e[cur], true);
}
EXPORT void _sr_conc(u32 s, u64 val, u32 bits, const char *f) {
    s = live(s); if (!s || !active) return;
    if (N[s].bits > bits) s = mk_extract(s, 0, bits);
    if (isc(s)) return;
    u64 before = L.conc;
    concretize(s, val, f, 1);
    if (L.conc != before && getenv("SYM_TRACE_CONC")) fprintf(stderr, "conc in %s\n", f);
}

// ------------------------------------------------------------------ modelled libc
#define RET(fn, sh) do { u32 _q = (sh); if (_q) { _s_ret[0] = _q; _s_retfn = (void *)fn; } else _s_retfn = 0; } while (0)
static inline u32 argsh(void *self, int i) { return 0; }
struct Args { u32 s[8]; Args(void *self, int n) { if (_s_callee == self) { for (int i = 0; i < n; ++i) s[i] = live(_s_args[i]); _s_callee = 0; } else for (int i = 0; i < n; ++i) s[i] = 0; } };
#define W(name) _sw_##name
static const char *LIBC = "libc";
static void mustconc(u32 s, u64 v) { if (s) concretize(s, v, LIBC, 1); }

// three-way comparison of byte ranges as one expression; stops at n (or NUL when str)
static int cmpimpl(void *self, const u8 *a, const u8 *b, size_t n, bool str, bool icase, bool eqonly) {
    int res = 0; bool symb = false;
    std::vector<u32> A, B; std::vector<u8> av, bv;
    for (size_t i = 0; i < n; ++i) {
        u32 x = getb((u64)(a + i)), y = getb((u64)(b + i));
        x = live(x); y = live(y);
        u8 p = a[i], q = b[i];
        A.push_back(x); B.push_back(y); av.push_back(p); bv.push_back(q);
        if (x || y) symb = true;
        u8 pl = icase ? tolower(p) : p, ql = icase ? tolower(q) : q;
        if (pl != ql) { if (!res) res = pl < ql ? -1 : 1; if (!x && !y) break; }
        if (str) {
            // a terminator ends the comparison only if it is one on every input of this path: otherwise split
            if (p == 0 && x) { decide(mk_eq(x, konst(0, 8)), true, LIBC); A.back() = 0; }
            else if (x && p) { u32 z = mk_eq(x, konst(0, 8)); if (q == 0 || y) { decide(z, false, LIBC); } else { /* y concrete non-zero: a terminator differs anyway */ } }
            if (q == 0 && y) { decide(mk_eq(y, konst(0, 8)), true, LIBC); B.back() = 0; }
            else if (y && q) { u32 z = mk_eq(y, konst(0, 8)); if (p == 0 || x) decide(z, false, LIBC); }
            if (p == 0 || q == 0) break;
        }
        if (str && res) { /* past a difference: the rest matters only if the difference is symbolic */ }
    }
    if (!symb) { RET(self, 0); return res; }
    // value = first difference
    u32 acc = konst(0, 32);
    for (size_t i = A.size(); i-- > 0;) {
        u32 x = live(A[i]) ? A[i] : konst(av[i], 8), y = live(B[i]) ? B[i] : konst(bv[i], 8);
        if (icase) {
            auto low = [&](u32 e) { u32 up = _sr_bin(IR_And, 1, _sr_cmp(P_UGE, 8, e, N[e].val, 0, 'A'), N[e].val >= 'A', _sr_cmp(P_ULE, 8, e, N[e].val, 0, 'Z'), N[e].val <= 'Z'); (void)up;
                if (isc(e)) return konst(tolower(N[e].val), 8);
                u32 c1 = mk(OP_ULE, 1, konst('A', 8), e), c2 = mk(OP_ULE, 1, e, konst('Z', 8));
                return mk(OP_ITE, 8, mk(OP_AND, 1, c1, c2), mk(OP_ADD, 8, e, konst(32, 8)), e); };
            x = low(x); y = low(y);
        }
        u32 eq = mk_eq(x, y);
        u32 lt = eqonly ? konst(1, 32) : (isc(x) && isc(y)) ? konst(N[x].val < N[y].val ? -1 : 1, 32) : mk(OP_ITE, 32, mk(OP_ULT, 1, x, y), konst(-1, 32), konst(1, 32));
        if (isc(eq)) acc = N[eq].val ? acc : lt;
        else if (acc != lt) acc = mk(OP_ITE, 32, eq, acc, lt);
    }
    if (eqonly && res) res = 1;
    if (isc(acc)) { RET(self, 0); return (int)N[acc].val; }
    RET(self, acc);
    return (int)N[acc].val;
}
EXPORT int W(memcmp)(const void *a, const void *b, size_t n) { Args A((void *)W(memcmp), 3); mustconc(A.s[2], n); return cmpimpl((void *)W(memcmp), (const u8 *)a, (const u8 *)b, n, false, false, false); }
EXPORT int W(bcmp)(const void *a, const void *b, size_t n) { Args A((void *)W(bcmp), 3); mustconc(A.s[2], n); return cmpimpl((void *)W(bcmp), (const u8 *)a, (const u8 *)b, n, false, false, true); }
EXPORT int W(strcmp)(const char *a, const char *b) { Args A((void *)W(strcmp), 2); return cmpimpl((void *)W(strcmp), (const u8 *)a, (const u8 *)b, ~0ull, true, false, false); }
EXPORT int W(strncmp)(const char *a, const char *b, size_t n) { Args A((void *)W(strncmp), 3); mustconc(A.s[2], n); return cmpimpl((void *)W(strncmp), (const u8 *)a, (const u8 *)b, n, true, false, false); }
EXPORT int W(strcasecmp)(const char *a, const char *b) { Args A((void *)W(strcasecmp), 2); return cmpimpl((void *)W(strcasecmp), (const u8 *)a, (const u8 *)b, ~0ull, true, true, false); }
EXPORT int W(strncasecmp)(const char *a, const char *b, size_t n) { Args A((void *)W(strncasecmp), 3); mustconc(A.s[2], n); return cmpimpl((void *)W(strncasecmp), (const u8 *)a, (const u8 *)b, n, true, true, false); }

static bool eqsplit(u64 p, u32 chs, u8 ch) {         // is byte at p equal to ch?  splits when symbolic
    u32 x = live(getb(p)); u8 v = *(u8 *)p;
    if (x || live(chs)) { u32 e = mk_eq(x ? x : konst(v, 8), live(chs) ? mk_extract(chs, 0, 8) : konst(ch, 8)); if (!isc(e)) decide(e, v == ch, LIBC); }
    return v == ch;
}
EXPORT size_t W(strlen)(const char *s) { Args A((void *)W(strlen), 1); size_t n = 0; while (!eqsplit((u64)s + n, 0, 0)) ++n; RET(W(strlen), 0); return n; }
EXPORT size_t W(strnlen)(const char *s, size_t m) { Args A((void *)W(strnlen), 2); mustconc(A.s[1], m); size_t n = 0; while (n < m && !eqsplit((u64)s + n, 0, 0)) ++n; RET(W(strnlen), 0); return n; }
EXPORT void *W(memchr)(const void *s, int c, size_t n) { Args A((void *)W(memchr), 3); mustconc(A.s[2], n); for (size_t i = 0; i < n; ++i) if (eqsplit((u64)s + i, A.s[1], (u8)c)) return (u8 *)s + i; return 0; }
EXPORT void *W(memrchr)(const void *s, int c, size_t n) { Args A((void *)W(memrchr), 3); mustconc(A.s[2], n); for (size_t i = n; i-- > 0;) if (eqsplit((u64)s + i, A.s[1], (u8)c)) return (u8 *)s + i; return 0; }
EXPORT char *W(strchr)(const char *s, int c) { Args A((void *)W(strchr), 2); for (;; ++s) { if (eqsplit((u64)s, A.s[1], (u8)c)) return (char *)s; if (eqsplit((u64)s, 0, 0)) return 0; } }
EXPORT char *W(strrchr)(const char *s, int c) { Args A((void *)W(strrchr), 2); char *r = 0; for (;; ++s) { if (eqsplit((u64)s, A.s[1], (u8)c)) r = (char *)s; if (eqsplit((u64)s, 0, 0)) return r; } }
EXPORT char *W(strpbrk)(const char *s, const char *acc) { Args A((void *)W(strpbrk), 2); for (;; ++s) { if (eqsplit((u64)s, 0, 0)) return 0; for (const char *q = acc; *q; ++q) if (eqsplit((u64)s, getb((u64)q), (u8)*q)) return (char *)s; } }
EXPORT char *W(strstr)(const char *h, const char *n) {
    Args A((void *)W(strstr), 2);
    for (;; ++h) {
        size_t k = 0;
        for (;; ++k) { if (eqsplit((u64)n + k, 0, 0)) return (char *)h; if (eqsplit((u64)h + k, 0, 0)) break; u32 y = live(getb((u64)n + k)); if (!eqsplit((u64)h + k, y, (u8)n[k])) break; }
        if (eqsplit((u64)h, 0, 0)) return 0;
    }
}
EXPORT void *W(memcpy)(void *d, const void *s, size_t n) { Args A((void *)W(memcpy), 3); mustconc(A.s[2], n); copyRange((u64)d, (u64)s, n); return memcpy(d, s, n); }
EXPORT void *W(memmove)(void *d, const void *s, size_t n) { Args A((void *)W(memmove), 3); mustconc(A.s[2], n); copyRange((u64)d, (u64)s, n); return memmove(d, s, n); }
EXPORT void *W(memset)(void *d, int c, size_t n) { Args A((void *)W(memset), 3); mustconc(A.s[2], n); _sr_memset(d, A.s[1], n); return memset(d, c, n); }
EXPORT char *W(strcpy)(char *d, const char *s) { Args A((void *)W(strcpy), 2); size_t n = W(strlen)(s) + 1; copyRange((u64)d, (u64)s, n); memcpy(d, s, n); return d; }
EXPORT char *W(strncpy)(char *d, const char *s, size_t m) { Args A((void *)W(strncpy), 3); mustconc(A.s[2], m); size_t n = W(strnlen)(s, m); copyRange((u64)d, (u64)s, n); memcpy(d, s, n); if (n < m) { clearRange((u64)d + n, m - n); memset(d + n, 0, m - n); } return d; }
EXPORT char *W(strcat)(char *d, const char *s) { Args A((void *)W(strcat), 2); size_t k = W(strlen)(d); W(strcpy)(d + k, s); return d; }
EXPORT char *W(strdup)(const char *s) { Args A((void *)W(strdup), 1); size_t n = W(strlen)(s) + 1; char *d = (char *)malloc(n); copyRange((u64)d, (u64)s, n); memcpy(d, s, n); return d; }
EXPORT void *W(realloc)(void *p, size_t n) {
    Args A((void *)W(realloc), 2); mustconc(A.s[1], n);
    extern size_t sym_malloc_size(void *);
    if (!p) return malloc(n);
    size_t o = sym_malloc_size(p);
    void *q = malloc(n); size_t m = o < n ? o : n;
    copyRange((u64)q, (u64)p, m); memcpy(q, p, m); free(p);
    return q;
}
// integer parsing: split on the characters, then compute concretely
static void concStr(const char *s) { for (;; ++s) { u32 x = live(getb((u64)s)); if (x) { concretize(x, (u8)*s, LIBC, 1); } if (!*s) break; if (!(isspace((u8)*s) || isalnum((u8)*s) || *s == '-' || *s == '+')) break; } }
// a number whose text depends on one byte: a table over that byte, when every value parses to the same length
static u32 tableVar(int v, int bits, const std::function<u64(int)> &f);
static u32 strNum(const char *s, int bits, const std::function<u64(const char *, char **)> &f, long *used) {
    int v = -1; size_t n = 0;
    for (; n < 40; ++n) { u32 x = live(getb((u64)s + n)); if (x) { int w = N[x].var; if (w < 0 || (v >= 0 && w != v)) return 0; v = w; } else if (!s[n]) break; }
    if (v < 0 || n >= 40) return 0;
    long len = -1; std::vector<u64> r(256, 0);
    for (int i = 0; i < 256; ++i) if (dom[v].has(i)) {
        char q[48]; for (size_t k = 0; k < n; ++k) { u32 x = live(getb((u64)s + k)); q[k] = x ? (char)table(x)[i] : s[k]; if (!q[k]) return 0; } q[n] = 0;
        char *e; r[i] = f(q, &e); if (len < 0) len = e - q; else if (len != e - q) return 0;
    }
    *used = len;
    return tableVar(v, bits, [&](int i) { return r[i]; });
}
#define STRTO(name, T, real) EXPORT T W(name)(const char *s, char **e, int b) { Args A((void *)W(name), 3); mustconc(A.s[2], b); long u_; u32 t_ = strNum(s, sizeof(T) * 8, [b](const char *q, char **z) { return (u64)real(q, z, b); }, &u_); if (t_) { T r = real(s, 0, b); if (e) { *e = (char *)s + u_; clearRange((u64)e, 8); } RET(W(name), t_); return r; } concStr(s); RET(W(name), 0); if (e) clearRange((u64)e, 8); return real(s, e, b); }
STRTO(strtol, long, strtol) STRTO(__isoc23_strtol, long, strtol) STRTO(strtoul, unsigned long, strtoul) STRTO(__isoc23_strtoul, unsigned long, strtoul)
STRTO(strtoll, long long, strtoll) STRTO(__isoc23_strtoll, long long, strtoll) STRTO(strtoull, unsigned long long, strtoull) STRTO(__isoc23_strtoull, unsigned long long, strtoull)
EXPORT int W(atoi)(const char *s) { Args A((void *)W(atoi), 1); concStr(s); RET(W(atoi), 0); return atoi(s); }
EXPORT int W(abs)(int x) { Args A((void *)W(abs), 1); mustconc(A.s[0], (u32)x); RET(W(abs), 0); return abs(x); }
// character classes: table over the argument
static u32 tableOf(u32 s, int bits, std::function<int(int)> f) {
    Node nn; memset(&nn, 0, sizeof nn);
    int v = N[s].var; if (v < 0) return 0;
    u64 *t = table(s), *nt = (u64 *)(arena + arenaUsed); arenaUsed += 2048;
    u64 h = 55;
    for (int i = 0; i < 256; ++i) { int a = (int)sx(t[i], N[s].bits); nt[i] = (u64)(u32)((a >= -128 && a <= 255) ? f(a) : 0) & mask(bits); h = mix(h, nt[i]); }
    nn.op = OP_TABLE; nn.bits = bits; nn.var = v; nn.val = nt[in[v]]; nn.tab = nt; nn.h = mix(h, v);
    u32 id = nN++; N[id] = nn; return id;
}
// an expression given by its value for every value of one byte (values outside the byte's current range are don't-care)
static u32 tableVar(int v, int bits, const std::function<u64(int)> &f) {
    Node nn; memset(&nn, 0, sizeof nn);
    u64 *nt = (u64 *)(arena + arenaUsed); arenaUsed += 2048; u64 h = 77; bool k = true; u64 cur = 0;
    for (int i = 0; i < 256; ++i) { nt[i] = dom[v].has(i) ? f(i) & mask(bits) : 0; h = mix(h, nt[i]); }
    cur = nt[in[v]]; for (int i = 0; i < 256; ++i) if (dom[v].has(i) && nt[i] != cur) k = false; else if (!dom[v].has(i)) nt[i] = cur;
    if (k) return 0;
    nn.op = OP_TABLE; nn.bits = bits; nn.var = v; nn.val = cur; nn.tab = nt; nn.h = mix(h, v);
    u32 id = nN++; N[id] = nn; return id;
}
#define CLS(name) EXPORT int W(name)(int c) { Args A((void *)W(name), 1); u32 s = A.s[0]; int r = name(c); if (s) { u32 t = tableOf(s, 32, [](int x) { return name(x); }); if (t) { RET(W(name), t); return r; } mustconc(s, (u32)c); } RET(W(name), 0); return r; }
CLS(isspace) CLS(isalpha) CLS(isdigit) CLS(isalnum) CLS(isupper) CLS(islower) CLS(ispunct) CLS(isxdigit) CLS(iscntrl) CLS(isprint) CLS(isgraph) CLS(toupper) CLS(tolower)

// formatted output: %s with symbolic bytes is copied with its shadow; integers are split on
static int vfmt(char *d, size_t n, const char *fmt, va_list ap, u32 *ash, int nash, int fixed) {
    std::string out; std::vector<u32> sh; int ai = fixed;
    auto put = [&](char c, u32 s) { out.push_back(c); sh.push_back(s); };
    for (const char *f = fmt; *f; ++f) {
        if (*f != '%') { put(*f, live(getb((u64)f))); continue; }
        std::string spec = "%"; ++f;
        int lng = 0;
        while (*f && strchr("-+ #0123456789.*lzhjt", *f)) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') ++lng; if (*f == '*') { int w = va_arg(ap, int); ++ai; spec += std::to_string(w); } else spec += *f; ++f; }
        spec += *f;
        char buf[512];
        u32 s = ai < nash ? ash[ai] : 0;
        switch (*f) {
        case '%': put('%', 0); break;
        case 's': { const char *p = va_arg(ap, const char *); ++ai; if (!p) p = "(null)";
            if (spec == "%s") { size_t k = W(strlen)(p); for (size_t i = 0; i < k; ++i) put(p[i], live(getb((u64)p + i))); }
            else { concBytes((u64)p, strlen(p), LIBC); snprintf(buf, sizeof buf, spec.c_str(), p); for (char *q = buf; *q; ++q) put(*q, 0); } break; }
        case 'c': { int c = va_arg(ap, int); ++ai; put((char)c, live(s) ? mk_extract(s, 0, 8) : 0); break; }
        case 'f': case 'g': case 'e': { double x = va_arg(ap, double); snprintf(buf, sizeof buf, spec.c_str(), x); for (char *q = buf; *q; ++q) put(*q, 0); break; }
        case 'p': { void *x = va_arg(ap, void *); ++ai; snprintf(buf, sizeof buf, "%p", x); for (char *q = buf; *q; ++q) put(*q, 0); break; }
        default: {
            long x; u32 e = live(s); int lg = lng;
            if (lng) x = va_arg(ap, long); else x = va_arg(ap, int);
            ++ai;
            auto pr = [&](u64 val, char *b) { if (lg) snprintf(b, 512, spec.c_str(), (long)val); else snprintf(b, 512, spec.c_str(), (int)val); };
            // an integer that depends on one byte, printed with a fixed width: each character is a table over that byte
            if (e && N[e].var >= 0) {
                int v = N[e].var; u64 *t = table(e); unsigned nb = N[e].bits; size_t len = 0; bool ok = true, any = false;
                for (int i = 0; i < 256 && ok; ++i) if (dom[v].has(i)) { pr((u64)(lg ? (i64)t[i] : sx(t[i], nb)), buf); size_t l = strlen(buf); if (!any) { any = true; len = l; } else if (l != len) ok = false; }
                if (ok && any) {
                    pr((u64)x, buf); std::string now_ = buf;
                    for (size_t k = 0; k < len; ++k) { u32 id = tableVar(v, 8, [&](int i) { char q[512]; pr((u64)(lg ? (i64)t[i] : sx(t[i], nb)), q); return (u64)(u8)q[k]; }); put(now_[k], id); }
                    break;
                }
            }
            if (e) mustconc(e, lng ? (u64)x : (u64)(u32)x);
            pr((u64)x, buf); for (char *q = buf; *q; ++q) put(*q, 0); }
        }
    }
    if (n) {
        size_t m = std::min(out.size(), n - 1);
        for (size_t i = 0; i < m; ++i) { d[i] = out[i]; setb((u64)d + i, sh[i]); }
        d[m] = 0; setb((u64)d + m, 0);
    }
    return (int)out.size();
}
EXPORT int W(vsnprintf)(char *d, size_t n, const char *f, va_list ap) { Args A((void *)W(vsnprintf), 3); mustconc(A.s[1], n); int r = vfmt(d, n, f, ap, 0, 0, 0); RET(W(vsnprintf), 0); return r; }
EXPORT int W(snprintf)(char *d, size_t n, const char *f, ...) { u32 s[8] = {0}; { Args A((void *)W(snprintf), 8); memcpy(s, A.s, sizeof s); mustconc(A.s[1], n); } va_list ap; va_start(ap, f); int r = vfmt(d, n, f, ap, s, 8, 3); va_end(ap); RET(W(snprintf), 0); return r; }
EXPORT int W(sprintf)(char *d, const char *f, ...) { u32 s[8] = {0}; { Args A((void *)W(sprintf), 8); memcpy(s, A.s, sizeof s); } va_list ap; va_start(ap, f); int r = vfmt(d, 1 << 20, f, ap, s, 8, 2); va_end(ap); RET(W(sprintf), 0); return r; }

// files whose contents may be symbolic: descriptors made by sym_vfd, and files by name (sym_file, or created by the code)
#include <fcntl.h>
struct VNode { char name[64]; u8 *p; size_t n, cap; bool used; };
struct VFile { int fd; VNode *v; size_t pos; bool used, eof, wr, isfile, pipe; int chunk; };
static VNode vn[32]; static VFile vf[64]; static const int VFD = 900;
static bool vname(const char *s) { return s && (!strncmp(s, "vfs_", 4) || *s == '@'); }
static const char *vnorm(const char *s) { static char b[64]; size_t k = 0; for (; *s && k < 63; ++s) if (!(*s == '/' && k && b[k - 1] == '/')) b[k++] = *s; b[k] = 0; return b; }   // a//b is a/b
static VNode *vlook(const char *s) { s = vnorm(s); for (auto &v : vn) if (v.used && !strcmp(v.name, s)) return &v; return 0; }
static VNode *vmake(const char *s) { VNode *v = vlook(s); s = vnorm(s); if (v) { return v; } for (auto &x : vn) if (!x.used) { x.used = true; strncpy(x.name, s, 63); x.p = 0; x.n = x.cap = 0; return &x; } return 0; }
static VFile *vopen(VNode *v, int chunk, bool wr) { if (!v) return 0; for (int i = 0; i < 64; ++i) if (!vf[i].used) { vf[i].used = true; vf[i].v = v; vf[i].pos = 0; vf[i].eof = false; vf[i].wr = wr; vf[i].isfile = vf[i].pipe = false; vf[i].chunk = chunk; vf[i].fd = VFD + i; return &vf[i]; } return 0; }
EXPORT int sym_vfd(const void *p, size_t n, int chunk) { { Args A((void *)sym_vfd, 3); } for (auto &x : vn) if (!x.used) { x.used = true; strcpy(x.name, "anon"); x.p = (u8 *)p; x.n = n; x.cap = 0; VFile *f = vopen(&x, chunk, false); x.name[0] = 0; return f ? f->fd : -1; } return -1; }
EXPORT void sym_file(const char *name, const void *p, size_t n) { { Args A((void *)sym_file, 3); } VNode *v = vmake(name); if (v) { v->p = (u8 *)p; v->n = n; v->cap = 0; } }
EXPORT long sym_slurp(const char *name, void *b, size_t n) { { Args A((void *)sym_slurp, 3); } VNode *v = vlook(name); if (!v) { return -1; } size_t m = std::min(n, v->n); copyRange((u64)b, (u64)v->p, m); memcpy(b, v->p, m); return (long)v->n; }
EXPORT int sym_openfds(void) { int k = 0; for (auto &f : vf) if (f.used && f.v->name[0]) ++k; return k; }
EXPORT int coro_yield(void);
EXPORT int sym_pipe(int *fds) {       // a read at its end waits while it can still be written
    { Args A((void *)sym_pipe, 1); }
    for (auto &x : vn) if (!x.used) { x.used = true; strcpy(x.name, "pipe"); x.p = 0; x.n = x.cap = 0; VFile *r = vopen(&x, 0, false), *w = vopen(&x, 0, true); r->pipe = true; fds[0] = r->fd; fds[1] = w->fd; clearRange((u64)fds, 8); return 0; }
    return -1;
}
static void pipeWait(VFile *f) { while (f->pipe && f->pos >= f->v->n) { bool w = false; for (auto &g : vf) if (g.used && g.wr && g.v == f->v) w = true; if (!w) return; if (!coro_yield()) { sym_check(0, "the end of what is piped is reached"); return; } } }
static VFile *vfind(int fd) { return fd >= VFD && fd < VFD + 64 && vf[fd - VFD].used ? &vf[fd - VFD] : 0; }
static u8 fakeFILE[64][8];
static VFile *ffind(FILE *f) { u8 *p = (u8 *)f; return p >= fakeFILE[0] && p < fakeFILE[64] ? &vf[(p - fakeFILE[0]) / 8] : 0; }
static FILE *toFILE(VFile *f) { return (FILE *)fakeFILE[f->fd - VFD]; }
static size_t vread(VFile *f, void *b, size_t n) { size_t m = std::min(n, f->v->n - std::min(f->pos, f->v->n)); if (m < n) f->eof = true; if (f->chunk && m > (size_t)f->chunk) m = f->chunk; copyRange((u64)b, (u64)f->v->p + f->pos, m); memcpy(b, f->v->p + f->pos, m); f->pos += m; return m; }
static size_t vwrite(VFile *f, const void *b, size_t n) {
    VNode *v = f->v;
    if (f->pos + n > v->cap) { size_t c = (f->pos + n) * 2 + 256; u8 *q = (u8 *)malloc(c); copyRange((u64)q, (u64)v->p, v->n); if (v->n) memcpy(q, v->p, v->n); v->p = q; v->cap = c; }
    copyRange((u64)v->p + f->pos, (u64)b, n); memcpy(v->p + f->pos, b, n); f->pos += n; if (f->pos > v->n) v->n = f->pos; return n;
}
static VFile *vopenName(const char *s, bool wr, bool trunc) { VNode *v = wr ? vmake(s) : vlook(s); if (!v) { errno = ENOENT; return 0; } if (trunc) { v->n = 0; } return vopen(v, 0, wr); }
EXPORT int W(open)(const char *s, int fl, ...) { Args A((void *)W(open), 3); concBytes((u64)s, strlen(s) + 1, LIBC); va_list ap; va_start(ap, fl); int mode = fl & O_CREAT ? va_arg(ap, int) : 0; va_end(ap); RET(W(open), 0); if (vname(s)) { VFile *f = vopenName(s, (fl & O_ACCMODE) != O_RDONLY, fl & O_TRUNC); return f ? f->fd : -1; } return open(s, fl, mode); }
EXPORT int W(open64)(const char *s, int fl, ...) { va_list ap; va_start(ap, fl); int mode = fl & O_CREAT ? va_arg(ap, int) : 0; va_end(ap); return W(open)(s, fl, mode); }
EXPORT int W(close)(int fd) { Args A((void *)W(close), 1); RET(W(close), 0); VFile *f = vfind(fd); if (f) { f->used = false; return 0; } if (fd >= VFD && fd < VFD + 64) { errno = EBADF; return -1; } return close(fd); }
EXPORT FILE *W(fopen)(const char *s, const char *m) { Args A((void *)W(fopen), 2); concBytes((u64)s, strlen(s) + 1, LIBC); RET(W(fopen), 0); if (vname(s)) { VFile *f = vopenName(s, m[0] != 'r', m[0] == 'w'); if (!f) { return 0; } f->isfile = true; return toFILE(f); } return fopen(s, m); }
EXPORT FILE *W(fopen64)(const char *s, const char *m) { return W(fopen)(s, m); }
EXPORT FILE *W(fdopen)(int fd, const char *m) { Args A((void *)W(fdopen), 2); RET(W(fdopen), 0); VFile *f = vfind(fd); if (f) { f->isfile = true; return toFILE(f); } return fdopen(fd, m); }
EXPORT int W(fclose)(FILE *F) { Args A((void *)W(fclose), 1); RET(W(fclose), 0); VFile *f = ffind(F); if (f) { f->used = false; return 0; } return fclose(F); }
EXPORT int W(feof)(FILE *F) { Args A((void *)W(feof), 1); RET(W(feof), 0); VFile *f = ffind(F); return f ? f->eof : feof(F); }
EXPORT int W(ferror)(FILE *F) { Args A((void *)W(ferror), 1); RET(W(ferror), 0); return ffind(F) ? 0 : ferror(F); }
EXPORT int W(fflush)(FILE *F) { Args A((void *)W(fflush), 1); RET(W(fflush), 0); return ffind(F) ? 0 : fflush(F); }
EXPORT int W(fileno)(FILE *F) { Args A((void *)W(fileno), 1); RET(W(fileno), 0); VFile *f = ffind(F); return f ? f->fd : fileno(F); }
EXPORT ssize_t W(read)(int fd, void *b, size_t n) {
    Args A((void *)W(read), 3); mustconc(A.s[2], n); RET(W(read), 0);
    VFile *f = vfind(fd);
    if (!f) { clearRange((u64)b, n); return read(fd, b, n); }
    pipeWait(f);
    return vread(f, b, n);
}
EXPORT ssize_t W(write)(int fd, const void *b, size_t n) { Args A((void *)W(write), 3); mustconc(A.s[2], n); RET(W(write), 0); VFile *f = vfind(fd); if (f && !f->wr) { errno = EBADF; return -1; } if (f) return vwrite(f, b, n); concBytes((u64)b, n, LIBC); return write(fd, b, n); }
EXPORT size_t W(fread)(void *p, size_t s, size_t n, FILE *F) { Args A((void *)W(fread), 4); mustconc(A.s[1], s); mustconc(A.s[2], n); RET(W(fread), 0); VFile *f = ffind(F); if (f) { return s ? vread(f, p, s * n) / s : 0; } clearRange((u64)p, s * n); return fread(p, s, n, F); }
EXPORT size_t W(fwrite)(const void *p, size_t s, size_t n, FILE *F) { Args A((void *)W(fwrite), 4); mustconc(A.s[1], s); mustconc(A.s[2], n); RET(W(fwrite), 0); VFile *f = ffind(F); if (f) { vwrite(f, p, s * n); return n; } concBytes((u64)p, s * n, LIBC); return fwrite(p, s, n, F); }
EXPORT int W(fputs)(const char *p, FILE *F) { Args A((void *)W(fputs), 2); RET(W(fputs), 0); VFile *f = ffind(F); if (f) { vwrite(f, p, W(strlen)(p)); return 1; } concBytes((u64)p, strlen(p), LIBC); return fputs(p, F); }

// heap: shadows do not survive a block.  A bump allocator with size headers keeps runs deterministic and cheap.
static u8 *heap; static size_t heapUsed; static const size_t HEAP_CAP = 6ull << 30;
static u64 freeList[64];
static bool heapOn;
extern "C" void *__libc_malloc(size_t); extern "C" void __libc_free(void *); extern "C" void *__libc_realloc(void *, size_t); extern "C" void *__libc_calloc(size_t, size_t); extern "C" void *__libc_memalign(size_t, size_t);
static inline bool mine(void *p) { return heap && (u8 *)p >= heap && (u8 *)p < heap + HEAP_CAP; }
size_t sym_malloc_size(void *p) { extern size_t malloc_usable_size_(void *); if (mine(p)) return ((u64 *)p)[-2]; return malloc_usable_size_(p); }
#include <malloc.h>
size_t malloc_usable_size_(void *p) { return malloc_usable_size(p); }
static volatile int inRuntime;
EXPORT void *malloc(size_t n) {
    if (!heapOn || inRuntime) return __libc_malloc(n);
    size_t c = (n + 31) & ~15ull;
    if (c < 32) c = 32;
    int cls = c / 16;
    u8 *p;
    if (cls < 64 && freeList[cls]) { p = (u8 *)freeList[cls]; freeList[cls] = *(u64 *)(p + 16); }
    else { p = heap + heapUsed; heapUsed += c; if (heapUsed > HEAP_CAP) _exit(97); }
    ((u64 *)p)[0] = n; ((u64 *)p)[1] = c;
    return p + 16;
}
EXPORT void free(void *p) {
    if (!p) return;
    if (!mine(p)) { __libc_free(p); return; }
    u64 n = ((u64 *)p)[-2], c = ((u64 *)p)[-1];
    clearRange((u64)p, n);
    int cls = c / 16;
    if (cls < 64) { *(u64 *)p = freeList[cls]; freeList[cls] = (u64)p - 16; }
}
EXPORT void *calloc(size_t a, size_t b) { if (!heapOn || inRuntime) return __libc_calloc(a, b); size_t n = a * b; void *p = malloc(n); memset(p, 0, n); return p; }
EXPORT void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    if (!mine(p)) { if (!heapOn || inRuntime) return __libc_realloc(p, n); size_t o = malloc_usable_size(p); void *q = malloc(n); memcpy(q, p, o < n ? o : n); __libc_free(p); return q; }
    u64 o = ((u64 *)p)[-2]; void *q = malloc(n); size_t m = o < n ? o : n; copyRange((u64)q, (u64)p, m); memcpy(q, p, m); free(p); return q;
}

// ------------------------------------------------------------------ harness interface
static void finish(int kind);
static bool pathDone;
EXPORT void sym_make(void *p, size_t n) {
    { Args A((void *)sym_make, 2); }
    for (size_t i = 0; i < n; ++i) {
        if (nvars >= MAXV) { fprintf(stderr, "too many symbolic bytes\n"); _exit(96); }
        int v = nvars++;
        dom[v] = Set256::all(); firstMulti[v] = 1 << 30;
        Node nn; memset(&nn, 0, sizeof nn); nn.op = OP_VAR; nn.bits = 8; nn.var = v; nn.imm = v; nn.val = in[v];
        varNode[v] = intern(nn);
        ((u8 *)p)[i] = in[v];
        setb((u64)p + i, varNode[v]);
    }
}
EXPORT u8 sym_byte(void) { static u8 b; sym_make(&b, 1); RET(sym_byte, varNode[nvars - 1]); return b; }
EXPORT int sym_choice(int n) {
    { Args A((void *)sym_choice, 1); }
    u8 b; sym_make(&b, 1); setb((u64)&b, 0);
    int v = nvars - 1;
    Set256 s = Set256::none(); for (int i = 0; i < n && i < 256; ++i) s.add(i);
    if (in[v] >= n) { in[v] = 0; N[varNode[v]].val = 0; b = 0; N[varNode[v]].tab = 0; }
    add_unary(v, s);
    concretize(varNode[v], b, "sym_choice", 0);
    return b;
}
static u64 outHash; static std::vector<std::pair<u8, u32>> outLog; static std::vector<size_t> outEnd;
EXPORT void sym_out(const void *p, size_t n) { { Args A((void *)sym_out, 2); } bool h = heapOn; heapOn = false; for (size_t i = 0; i < n; ++i) outLog.push_back({((const u8 *)p)[i], live(getb((u64)p + i))}); outEnd.push_back(outLog.size()); heapOn = h; for (size_t i = 0; i < n; ++i) { outHash ^= ((const u8 *)p)[i]; outHash *= 1099511628211ull; } outHash ^= 0xff; outHash *= 1099511628211ull; }
EXPORT int sym_concrete(void) { return 0; }
EXPORT void sym_note(const char *, ...) {}
EXPORT void sym_assume(int c) {
    Args A((void *)sym_assume, 1);
    if (A.s[0]) { u32 e = N[A.s[0]].bits == 1 ? A.s[0] : mk_not(mk_eq(A.s[0], konst(0, N[A.s[0]].bits))); if (!isc(e)) decide(e, c != 0, "sym_assume"); }
    if (!c) finish(2);
}
static int chkIdx(const char *l) { for (u32 i = 0; i < S->nchk; ++i) if (!strncmp(S->chk[i].label, l, 119)) return i; lock(); for (u32 i = 0; i < S->nchk; ++i) if (!strncmp(S->chk[i].label, l, 119)) { unlock(); return i; } int r = -1; if (S->nchk < MAXREACH) { r = S->nchk; strncpy(S->chk[r].label, l, 119); __sync_synchronize(); S->nchk++; } unlock(); return r; }
static void violation(const char *label, const u8 *v, int kind) {
    lock();
    int same = 0;
    for (u32 i = 0; i < S->nviol; ++i) if (S->viol[i].cfg == curCfg && !strncmp(S->viol[i].label, label, 119)) ++same;
    if (same < 24 && S->nviol < MAXVIOL) {
        Viol &x = S->viol[S->nviol]; x.cfg = curCfg; x.n = nvars; x.kind = kind; strncpy(x.label, label, 119); x.label[119] = 0; memcpy(x.v, v, MAXV); S->nviol++;
    }
    S->st[curCfg].nviol++;
    unlock();
}
EXPORT void sym_check(int c, const char *label) {
    Args A((void *)sym_check, 2);
    ++L.asserts;
    int ci = chkIdx(label); if (ci >= 0) __sync_fetch_and_add(&S->chk[ci].n, 1);
    if (!c) { violation(label, in, 1); finish(3); }
    if (A.s[0]) {
        u32 e = N[A.s[0]].bits == 1 ? A.s[0] : mk_not(mk_eq(A.s[0], konst(0, N[A.s[0]].bits)));
        if (isc(e)) return;
        ++L.asserts_sym; if (ci >= 0) __sync_fetch_and_add(&S->chk[ci].sym, 1);
        u8 o[MAXV]; memcpy(o, in, MAXV);
        u64 z0 = L.z3;
        int r = z3assert(e, o);
        L.asserts_z3 += L.z3 - z0; if (ci >= 0) __sync_fetch_and_add(&S->chk[ci].z3, L.z3 - z0);
        if (r == 1) violation(label, o, 1);
        if (r < 0) ++L.unknown;
    }
}
EXPORT void sym_reach(const char *l) {
    { Args A((void *)sym_reach, 1); }
    for (u32 i = 0; i < S->nreach; ++i) if (!strncmp(S->reach[i].label, l, 119)) { __sync_fetch_and_add(&S->reach[i].n, 1); return; }
    lock();
    for (u32 i = 0; i < S->nreach; ++i) if (!strncmp(S->reach[i].label, l, 119)) { S->reach[i].n++; unlock(); return; }
    if (S->nreach < MAXREACH) { strncpy(S->reach[S->nreach].label, l, 119); S->reach[S->nreach].n = 1; S->nreach++; }
    unlock();
}

// ------------------------------------------------------------------ exploration
static double deadline; static u64 witEvery = 1;
static void pushItem(const u8 *v, u32 bound, u64 h, int n) {
    lock();
    u32 id;
    if (S->freeList) { id = S->freeList; S->freeList = items[id].next; }
    else if (S->used < S->capItems) id = S->used++;
    else { S->st[curCfg].overflow++; unlock(); return; }
    Item &it = items[id]; it.cfg = curCfg; it.bound = bound; it.n = n; it.phash = h; memcpy(it.v, v, MAXV);
    it.next = S->st[curCfg].stack; S->st[curCfg].stack = id; S->st[curCfg].pending++;
    S->outstanding++;
    unlock();
}
static double runStart;
static void finish(int kind) {   // 1 normal, 2 assumption failed, 3 check failed, 4 crash, 5 hang
    if (pathDone) _exit(95);
    pathDone = true; active = false; heapOn = false; coro_off();
    if (kind == 4 || kind == 5) {
        char l[64]; snprintf(l, sizeof l, kind == 4 ? "no-crash" : "no-hang");
        violation(l, in, kind);
    }
    double ms = (now() - runStart) * 1000;
    // expand alternatives beyond the bound
    for (auto &a : alts) {
        if (a.rec < curBound) continue;
        if (S->stop) break;
        u8 o[MAXV];
        int r = a.var >= 0 ? solve(recCon[a.rec], 0, false, a.var, &a.set, o) : solve(recCon[a.rec], a.node, a.val, -1, 0, o);
        if (r == 1) pushItem(o, a.rec + 1, 0, nvars);
        // unknown results are counted by solve()
    }
    // path accounting
    long double vol = 1; bool uni = true;
    for (auto &c : cons) if (c.var < 0) uni = false;
    for (int v = 0; v < nvars; ++v) vol *= dom[v].count() / 256.0L;
    // another assignment of this path, and the output that the recorded expressions predict for it
    u8 v2[MAXV]; u64 out2 = 0; bool have2 = false;
    if (kind == 1 && S->witCap) {
        memcpy(v2, in, MAXV);
        for (int v = 0; v < nvars; ++v) if (dom[v].count() > 1) { int k = (in[v] * 7 + v * 31 + (int)L.symbr) % 255 + 1; for (int i = 0; i < 256; ++i) { u8 x = in[v] + k + i; if (x != in[v] && dom[v].has(x)) { v2[v] = x; have2 = true; break; } } }
        if (have2) {
            std::unordered_map<u32, u64> memo;
            std::function<u64(u32)> ev = [&](u32 id) -> u64 {
                Node &n = N[id]; if (n.var == -1) return n.val; if (n.op == OP_VAR) return v2[n.imm]; if (n.var >= 0) return table(id)[v2[n.var]];
                auto it = memo.find(id); if (it != memo.end()) return it->second;
                u64 a = n.a ? ev(n.a) : 0, b = n.b ? ev(n.b) : 0, c = n.c ? ev(n.c) : 0; u64 r = evalop(N[id], a, b, c, N[N[id].a].bits); memo[id] = r; return r;
            };
            for (auto &c : cons) if (c.var < 0 && (ev(c.node) & 1) != (u64)c.taken) { have2 = false; break; }
            if (have2) {
                size_t j = 0;
                for (size_t e : outEnd) { for (; j < e; ++j) { out2 ^= outLog[j].second ? (u8)ev(outLog[j].second) : outLog[j].first; out2 *= 1099511628211ull; } out2 ^= 0xff; out2 *= 1099511628211ull; }
            }
        }
    }
    lock();
    CfgStat &st = S->st[curCfg];
    st.runs++;
    if (kind == 2) st.assumed++; else st.paths++;
    if (uni) st.covered += vol;
    st.queries_dom += L.dom; st.queries_z3 += L.z3; st.sat += L.sat; st.unsat += L.unsat; st.unknown += L.unknown; st.asserts += L.asserts; st.asserts_sym += L.asserts_sym; st.asserts_z3 += L.asserts_z3;
    st.conc += L.conc; st.concmem += L.concmem; st.diverge += L.diverge; st.symbranches += L.symbr; st.enum_trunc += L.trunc; st.z3_s += L.z3s;
    if (!uni) st.logpaths += 1;
    if (kind == 4) st.crashes++; if (kind == 5) st.hangs++;
    if (ms > st.maxms) st.maxms = ms;
    if (nvars > st.maxvars) st.maxvars = nvars;
    for (auto &f : fnHits) {
        u32 i; for (i = 0; i < S->nfn; ++i) if (S->fn[i].h == (u64)f.first) break;
        if (i == S->nfn && S->nfn < MAXFN) { S->fn[i].h = (u64)f.first; strncpy(S->fn[i].name, f.first, 247); S->fn[i].n = 0; S->nfn++; }
        if (i < S->nfn) S->fn[i].n += f.second;
    }
    if (kind == 1) {
        S->witSeen++;
        u32 slot = S->nwit < S->witCap ? S->nwit++ : (S->witCap ? (u32)((S->witSeen * 2654435761ull) % S->witSeen) : 0);
        if (slot < S->witCap) {
            Wit &w = S->wit[slot]; w.cfg = curCfg; w.n = nvars; w.out = outHash; memcpy(w.v, in, MAXV);
            w.has2 = 0;
            if (have2) { w.has2 = 1; memcpy(w.v2, v2, MAXV); w.out2 = out2; }
        }
    }
    unlock();
    _exit(kind == 1 || kind == 2 ? 0 : 10 + kind);
}
static void onsig(int s) {
    if (pathDone) _exit(94);
    finish(s == SIGALRM || s == SIGVTALRM ? 5 : 4);
}
static int hangSecs = 20;
static void child(const Item &it) {
    runStart = now();
    curCfg = it.cfg; curBound = it.bound; expectHash = it.phash; memcpy(in, it.v, MAXV); itemN = it.n;
    static u8 alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGVTALRM}) sigaction(s, &sa, 0);
    alarm(hangSecs);
    atexit([] { if (!pathDone) finish(4); });        // the code ended the process
    heapOn = true; active = true;
    coro_on(1, 0, 0);
    sym_harness(it.cfg);
    finish(1);
}
static void worker(int w) {
    u32 rr = w;
    for (;;) {
        if (now() > deadline) S->stop = 1;
        if (S->stop) return;
        lock();
        u32 id = 0; int c = -1;
        for (int k = 0; k < ncfg; ++k) { int q = (rr + k) % ncfg; if (S->st[q].stack) { c = q; break; } }
        if (c >= 0) { id = S->st[c].stack; S->st[c].stack = items[id].next; S->st[c].pending--; rr = c + 1; }
        u32 out = S->outstanding;
        unlock();
        if (c < 0) { if (!out) return; usleep(300); continue; }
        Item it = items[id];
        pid_t p = fork();
        if (p == 0) child(it);
        int st; waitpid(p, &st, 0);
        if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) >= 90)) {
            lock(); S->st[it.cfg].runs++; S->st[it.cfg].overflow++; unlock();
            fprintf(stderr, "engine: child for cfg %d died (%x)\n", it.cfg, st);
            // the run could not be completed symbolically: hand the input to the replay anyway
            curCfg = it.cfg; nvars = it.n; memcpy(in, it.v, MAXV); violation("engine-child-died", it.v, 6);
        }
        lock(); items[id].next = S->freeList; S->freeList = id; S->outstanding--; unlock();
    }
}

static void jstr(FILE *f, const char *s) { fputc('"', f); for (; *s; ++s) { u8 c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }
static void hex(FILE *f, const u8 *v, int n) { for (int i = 0; i < n; ++i) fprintf(f, "%02x", v[i]); }

__attribute__((constructor(101))) static void earlyInit() {
    N = (Node *)amap(sizeof(Node) * NODE_CAP); nN = 1; N[0].bits = 64; N[0].var = -1;
    HT = (u32 *)amap(65536 * 4); htMask = 65535;
    arena = (u8 *)amap(ARENA_CAP);
    pages = (Page *)amap(sizeof(Page) * PT); filt = (u8 *)amap(65536);
    heap = (u8 *)amap(HEAP_CAP);
}
int main(int argc, char **argv) {
    double budget = 60; int workers = 8; const char *out = "/dev/stdout"; u32 wcap = 2000; const char *only = 0; bool one = false; const char *onehex = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--budget") budget = atof(argv[++i]);
        else if (a == "--workers") workers = atoi(argv[++i]);
        else if (a == "--out") out = argv[++i];
        else if (a == "--witnesses") wcap = atoi(argv[++i]);
        else if (a == "--cfg") only = argv[++i];
        else if (a == "--hang") hangSecs = atoi(argv[++i]);
        else if (a == "--run") { one = true; onehex = argv[++i]; }
    }
    S = (Shared *)amap(sizeof(Shared), true);
    
    S->capItems = 4u << 20; S->used = 1;
    items = (Item *)amap(sizeof(Item) * (size_t)S->capItems, true);
    if (wcap > MAXWIT) wcap = MAXWIT;
    S->witCap = wcap; S->wit = (Wit *)amap(sizeof(Wit) * (size_t)(wcap + 1), true);
    for (int i = 0; i < MAXV; ++i) firstMulti[i] = 1 << 30;
    z3init();
    sym_setup();
    while (sym_config_name(ncfg) && ncfg < MAXCFG) ++ncfg;
    double t0 = now(); deadline = t0 + budget;
    if (one) {
        Item it; memset(&it, 0, sizeof it); std::string s = onehex; size_t col = s.find(':');
        it.cfg = atoi(s.substr(0, col).c_str()); s = s.substr(col + 1);
        for (size_t i = 0; i + 1 < s.size(); i += 2) it.v[it.n++] = strtol(s.substr(i, 2).c_str(), 0, 16);
        it.bound = 0; child(it);
    }
    for (int c = 0; c < ncfg; ++c) {
        if (only && std::string(sym_config_name(c)).find(only) == std::string::npos) continue;
        curCfg = c; u8 z[MAXV]; memset(z, 'a', sizeof z); pushItem(z, 0, 0, 0);
    }
    std::vector<pid_t> ws;
    for (int w = 0; w < workers; ++w) { pid_t p = fork(); if (!p) { worker(w * (ncfg / (workers ? workers : 1) + 1)); _exit(0); } ws.push_back(p); }
    for (pid_t p : ws) waitpid(p, 0, 0);
    double wall = now() - t0;
    FILE *f = fopen(out, "w");
    fprintf(f, "{\"wall_s\":%.3f,\"stopped\":%d,\"configs\":[", wall, S->stop);
    bool first = true;
    for (int c = 0; c < ncfg; ++c) {
        CfgStat &s = S->st[c];
        if (!s.runs) { if (only) continue; }
        fprintf(f, "%s\n{\"name\":", first ? "" : ","); jstr(f, sym_config_name(c)); first = false;
        fprintf(f, ",\"paths\":%lu,\"runs\":%lu,\"assumed_out\":%lu,\"complete\":%s,\"pending\":%lu,\"covered\":%.9Lf,\"multi_paths\":%.0f,\"domain_queries\":%lu,\"z3_queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"z3_s\":%.3f,\"checks\":%lu,\"checks_symbolic\":%lu,\"checks_z3\":%lu,\"concretizations\":%lu,\"conc_mem\":%lu,\"diverged\":%lu,\"crashes\":%lu,\"hangs\":%lu,\"overflow\":%lu,\"symbolic_branches\":%lu,\"enum_trunc\":%lu,\"max_ms\":%.1f,\"bytes\":%d,\"violations\":%u}",
            s.paths, s.runs, s.assumed, (s.runs && !s.pending && !s.overflow && !s.unknown && !s.enum_trunc && !s.diverge && !S->stop) ? "true" : (s.runs && !s.pending && !s.overflow && !s.unknown && !s.enum_trunc && !s.diverge && S->stop && !s.stack) ? "true" : "false", s.pending, s.covered, s.logpaths, s.queries_dom, s.queries_z3, s.sat, s.unsat, s.unknown, s.z3_s, s.asserts, s.asserts_sym, s.asserts_z3, s.conc, s.concmem, s.diverge, s.crashes, s.hangs, s.overflow, s.symbranches, s.enum_trunc, s.maxms, s.maxvars, s.nviol);
    }
    fprintf(f, "],\n\"config_names\":["); for (int c = 0; c < ncfg; ++c) { if (c) fputc(',', f); jstr(f, sym_config_name(c)); }
    fprintf(f, "],\n\"reach\":{"); for (u32 i = 0; i < S->nreach; ++i) { if (i) fputc(',', f); jstr(f, S->reach[i].label); fprintf(f, ":%lu", S->reach[i].n); }
    fprintf(f, "},\n\"checks\":{"); for (u32 i = 0; i < S->nchk; ++i) { if (i) fputc(',', f); jstr(f, S->chk[i].label); fprintf(f, ":[%lu,%lu,%lu]", S->chk[i].n, S->chk[i].sym, S->chk[i].z3); }
    fprintf(f, "},\n\"functions\":{"); for (u32 i = 0; i < S->nfn; ++i) { if (i) fputc(',', f); jstr(f, S->fn[i].name); fprintf(f, ":%lu", S->fn[i].n); }
    fprintf(f, "},\n\"violations\":["); for (u32 i = 0; i < S->nviol; ++i) { Viol &v = S->viol[i]; if (i) fputc(',', f); fprintf(f, "{\"cfg\":"); jstr(f, sym_config_name(v.cfg)); fprintf(f, ",\"cfgi\":%d,\"kind\":%u,\"label\":", v.cfg, v.kind); jstr(f, v.label); fprintf(f, ",\"hex\":\""); hex(f, v.v, v.n); fprintf(f, "\"}"); }
    fprintf(f, "],\n\"witnesses\":["); for (u32 i = 0; i < S->nwit && i < S->witCap; ++i) { Wit &w = S->wit[i]; if (i) fputc(',', f); fprintf(f, "[\"%d:", w.cfg); hex(f, w.v, w.n); fprintf(f, "\",\"%016lx\"]", w.out); if (w.has2) { fprintf(f, ",[\"%d:", w.cfg); hex(f, w.v2, w.n); fprintf(f, "\",\"%016lx\",2]", w.out2); } }
    fprintf(f, "]}\n"); fclose(f);
    return 0;
}

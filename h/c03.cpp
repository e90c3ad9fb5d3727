// C03: the INI grammar, against a line-by-line reference reader
#include "vf.h"
#include <cstring>
#include <cstdio>
#include "ini.hh"

typedef unsigned char u8;
enum { MAXT = 1200, MAXE = 48, MAXS = 260 };

struct Str { u8 c[MAXS]; int n; };
struct Event { Str s, k, v; };
struct Seen { Event e[MAXE]; int n; bool choose; int bad[MAXE]; };

static void put(Str &d, const char *s) { int i = 0; for (; s[i] && i < MAXS; i++) d.c[i] = (u8)s[i]; d.n = i; }

static int handler(void *user, const char *section, const char *name, const char *value) {
    Seen *z = (Seen *)user;
    vf_assert(z->n < MAXE, "more pairs than the text can hold");
    Event &e = z->e[z->n];
    put(e.s, section); put(e.k, name); put(e.v, value);
    int r = z->choose ? vf_choice("accept", 2) : 1;
    z->bad[z->n] = !r;
    z->n++;
    return r;
}

// ---- reference
static bool blank(u8 c) { return c == ' ' || (c >= 9 && c <= 13); }
struct Ref { Event e[MAXE]; int line[MAXE]; int n; int err[MAXT]; int lines; };

static void cut(Str &d, const u8 *p, int a, int b) {        // p[a..b) without surrounding blanks
    while (a < b && blank(p[a])) a++;
    while (b > a && blank(p[b - 1])) b--;
    d.n = b - a;
    for (int i = 0; i < d.n; i++) d.c[i] = p[a + i];
}
static void raw(Str &d, const u8 *p, int a, int b) { d.n = b - a; for (int i = 0; i < d.n; i++) d.c[i] = p[a + i]; }

// first of c1, c2 in p[a..b), or an inline comment (';' after a blank), or b
static int stop(const u8 *p, int a, int b, u8 c1, u8 c2, bool &found) {
    found = false;
    for (int i = a; i < b; i++) {
        if (c1 && (p[i] == c1 || p[i] == c2)) { found = true; return i; }
        if (i > a && p[i] == ';' && blank(p[i - 1])) return i;
    }
    return b;
}

static void reference(const u8 *t, int n, Ref &r) {
    Str section, prev;
    section.n = prev.n = 0; r.n = 0; r.lines = 0;
    int pos = 0;
    while (pos < n) {
        int e = pos;
        while (e < n && t[e] != '\n') e++;
        int a = pos, b = e, first = pos;
        pos = e < n ? e + 1 : e;
        int ln = r.lines++;
        r.err[ln] = 0;
        if (ln == 0 && b - a >= 3 && t[a] == 0xEF && t[a + 1] == 0xBB && t[a + 2] == 0xBF) a += 3;
        while (b > a && blank(t[b - 1])) b--;
        while (a < b && blank(t[a])) a++;
        if (a == b) continue;
        if (t[a] == ';' || t[a] == '#') continue;
        bool f;
        if (prev.n && a > first) {
            Event &v = r.e[r.n];
            v.s = section; v.k = prev;
            cut(v.v, t, a, stop(t, a, b, 0, 0, f));
            r.line[r.n++] = ln;
            continue;
        }
        if (t[a] == '[') {
            int q = stop(t, a + 1, b, ']', ']', f);
            if (f) { raw(section, t, a + 1, q); prev.n = 0; } else r.err[ln] = 1;
            continue;
        }
        int q = stop(t, a, b, '=', ':', f);
        if (!f) { r.err[ln] = 1; continue; }
        Event &v = r.e[r.n];
        v.s = section;
        cut(v.k, t, a, q);
        cut(v.v, t, q + 1, stop(t, q + 1, b, 0, 0, f));
        prev = v.k;
        r.line[r.n++] = ln;
    }
}

static void same(const Str &a, const Str &b, const char *l) {
    vf_assert(a.n == b.n, l);
    for (int i = 0; i < a.n; i++) vf_assert(a.c[i] == b.c[i], l);
}

static Seen z;
static Ref r;
static u8 text[MAXT];
static int len;

static void lit(const char *s) { for (; *s; s++) text[len++] = (u8)*s; }
static void any(int n) {
    for (int i = 0; i < n; i++) {
        u8 b = vf_byte("b");
        vf_assume(b != 0);
        text[len++] = b;
    }
}

static void compare(int code) {
    vf_assert(z.n == r.n, "number of pairs");
    for (int i = 0; i < r.n; i++) {
        same(z.e[i].s, r.e[i].s, "section");
        same(z.e[i].k, r.e[i].k, "name");
        same(z.e[i].v, r.e[i].v, "value");
        if (z.bad[i]) r.err[r.line[i]] = 1;
    }
    int want = 0;
    for (int i = r.lines - 1; i >= 0; i--) if (r.err[i]) want = i + 1;
    vf_assert(code == want, "first bad line");
    if (want) vf_reach("bad"); else vf_reach("good");
    if (r.n) vf_reach("pair");
}

static void run(bool choose = false) {
    text[len] = 0;
    z.n = 0; z.choose = choose;
    int code = ini_parse_string((const char *)text, handler, &z);
    reference(text, len, r);
    compare(code);
}

extern "C" {
// every text of up to N bytes
void q_any() { len = 0; int n = vf_choice("n", vf_tier() ? 6 : 5); any(n); run(); }
// a pair, then anything: continuation lines, sections, comments
void q_second() { len = 0; lit("a=b\n"); any(vf_tier() ? 5 : 4); run(); }
// inside a section header, a name and a value
void q_section() { len = 0; lit("[s"); any(1); lit("t"); any(1); lit("\nk"); any(1); lit("v"); any(vf_tier() ? 2 : 1); lit("w"); run(); }
void q_value() { len = 0; lit("name"); any(1); lit("v"); any(1); any(1); lit("w"); any(1); lit("x"); if (vf_tier()) any(1); lit("\n"); run(); }
void q_continue() { len = 0; lit("[s]\nk = v\n"); any(1); lit("x"); any(2); lit("y"); any(1); lit("=z\n"); run(); }
// a pair, a section header and a pair that may look like a continuation; a comment between a pair and its continuation
void q_header() { len = 0; lit("a=1\n["); any(1); lit("]"); any(1); any(1); lit("y"); any(1); lit("2\n"); run(); }
void q_between() { len = 0; lit("a=1\n"); any(1); lit("c\n"); any(1); lit("b"); any(1); lit("2"); run(); }
// a second text, after one that may end in the middle of anything
void q_again() {
    static const char *BEFORE[] = {"[old]\nname=v\n", "[old]\nname=v", "x=1\n bad", "[open", "name", "[old]\nk=1\n[", "\xEF\xBB\xBF[b]\nc=d\n"};
    len = 0; lit(BEFORE[vf_choice("before", 7)]);
    text[len] = 0;
    z.n = 0; z.choose = false;
    ini_parse_string((const char *)text, handler, &z);
    len = 0; any(1); lit("k"); any(1); lit("v\n"); any(1); lit("x=2");
    run();
}
// byte order mark
void q_bom() { len = 0; text[len++] = 0xEF; any(2); lit("k=v"); any(1); lit("\n"); text[len++] = 0xEF; text[len++] = 0xBB; text[len++] = 0xBF; lit("l=w"); run(); }
// a handler that rejects pairs; several bad lines
void q_reject() {
    len = 0;
    if (vf_tier()) any(1);
    lit("a=1\n"); any(1); lit("b:2\n"); any(1); lit("c"); any(1); lit("3\n");
    run(true);
}
// read from a file, with and without a final newline
void q_file() {
    len = 0; lit("[g]\n"); any(1); lit("k=v"); any(2);
    text[len] = 0;
    vf_file("c03.ini", (const char *)text);
    z.n = 0; z.choose = false;
    int code = ini_parse("c03.ini", handler, &z);
    reference(text, len, r);
    compare(code);
    z.n = 0;
    vf_assert(ini_parse("c03-missing.ini", handler, &z) != 0, "missing file reported");
    vf_assert(z.n == 0, "nothing reported from a missing file");
}
// longest names, sections and lines: nothing is read or written outside the buffers
static void fill(int n, char c) { for (int i = 0; i < n; i++) text[len++] = (u8)c; }
void q_long_names() {
    len = 0;
    int w = vf_choice("w", 2), n = 47 + vf_choice("n", 6);
    lit("[");
    fill(w ? n : 3, 's'); any(1); lit("]\n");
    fill(w ? 3 : n, 'k'); any(1); lit("= v\n  more\n");
    text[len] = 0;
    z.n = 0; z.choose = false;
    ini_parse_string((const char *)text, handler, &z);
    reference(text, len, r);
    if (n + 1 < 50) {
        vf_assert(z.n == r.n, "number of pairs");
        for (int i = 0; i < r.n; i++) { same(z.e[i].s, r.e[i].s, "section"); same(z.e[i].k, r.e[i].k, "name"); same(z.e[i].v, r.e[i].v, "value"); }
    }
    vf_reach("long");
}
void q_long_line() {
    len = 0;
    int n = 190 + vf_choice("n", 14);
    bool file = vf_choice("file", 2);
    lit("a="); fill(n - 3, 'v'); any(2); lit("\nb=2\n");
    text[len] = 0;
    z.n = 0; z.choose = false;
    if (file) { vf_file("c03.ini", (const char *)text); ini_parse("c03.ini", handler, &z); }
    else {
        int code = ini_parse_string((const char *)text, handler, &z);
        reference(text, len, r);
        bool fits = n + 1 < 199;
        if (fits) compare(code);
    }
    vf_reach("long");
}
// a file as long as decks are: many sections and pairs, bad lines early, late or both, read from memory or from a file
void q_large() {
    int lines = vf_choice("lines", 2) ? 40 : 12, bad = vf_choice("bad", 4), at = vf_choice("part", 3), file = vf_choice("file", 2);
    int sym = at == 0 ? 1 : at == 1 ? lines / 2 : lines - 1;
    len = 0;
    for (int i = 0; i < lines; i++) {
        char b[40] = {};
        if ((bad & 1) && i == 10) lit("bad\n");
        if ((bad & 2) && i == lines - 2) lit("[worse\n");
        if (i % 7 == 3) lit("; comment\n\n");
        if (i % 5 == 0) { snprintf(b, 40, "[s%d]\n", i); lit(b); }
        snprintf(b, 40, "key%d =", i); lit(b);
        if (i == sym) any(1);
        snprintf(b, 40, "v%d ; note\n", i); lit(b);
        if (i % 6 == 1) lit("  more\n");
    }
    text[len] = 0;
    z.n = 0; z.choose = false;
    int code;
    if (file) { vf_file("c03.ini", (const char *)text); code = ini_parse("c03.ini", handler, &z); }
    else code = ini_parse_string((const char *)text, handler, &z);
    reference(text, len, r);
    compare(code);
    vf_reach("large");
}
}

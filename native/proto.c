/* Message layer: C01 round trip, C02 framing, C03 output delivery, C04 arbitrary input. */
#include "oracle.h"
#include "chan.h"
#include "message.h"
#include "trax.h"

static const char *tname[] = { 0, "hello", "initialize", "frame", "quit", "state" };
typedef struct { int type, na, np; char *a[40]; char *k[40], *v[40]; } msg;
static void msg_free(msg *m) { for (int i = 0; i < m->na; i++) free(m->a[i]); for (int i = 0; i < m->np; i++) { free(m->k[i]); free(m->v[i]); } memset(m, 0, sizeof *m); }
static int keychar(int c) { return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '.' || c == '_'; }
static char *rtext(int max) {
  int n = P(10) ? 0 : P(3) ? RR(4080, 4110) : P(2) ? RR(0, 20000) : R(max) ;
  char *s = malloc(n + 1);
  for (int i = 0; i < n; i++) {
    int k = R(12);
    s[i] = k == 0 ? '"' : k == 1 ? '\\' : k == 2 ? '\n' : k == 3 ? ' ' : k == 4 ? 'n' : k == 5 ? '=' : k == 6 ? (char) (1 + R(255)) : k == 7 ? '\r' : (char) ('a' + R(26));
  }
  if (P(4) && n > 8) memcpy(s, "@@TRAX:q", 8);
  s[n] = 0;
  return s;
}
static int is_pair(const char *s) { int i = 0; while (keychar((unsigned char) s[i]) && i < 65) i++; return s[i] == '=' && i <= 64; }
static char *rkey(void) {
  int n = P(5) ? RR(60, 64) : 1 + R(10);
  char *s = malloc(n + 1);
  const char *cs = "abcxyzABCXYZ0189._";
  for (int i = 0; i < n; i++) s[i] = cs[R(18)];
  s[n] = 0;
  return s;
}
static void rmsg(msg *m) {
  memset(m, 0, sizeof *m);
  m->type = 1 + R(5);
  int na = P(30) ? 0 : R(P(5) ? 39 : 5);
  for (int i = 0; i < na; i++) { char *s = rtext(12); if (is_pair(s)) { s[0] = '-'; } m->a[m->na++] = s; }
  int np = P(30) ? 0 : R(P(5) ? 39 : 5);
  for (int i = 0; i < np; i++) {
    char *k = rkey(); int dup = 0;
    for (int j = 0; j < m->np; j++) dup |= !strcmp(k, m->k[j]);
    if (dup) { free(k); continue; }
    m->k[m->np] = k; m->v[m->np++] = rtext(12);
  }
}
static void esc(bytes *b, const char *s) {
  for (; *s; s++) { if (*s == '"' || *s == '\\' || *s == '\n') b_chr(b, '\\'); b_chr(b, *s == '\n' ? 'n' : *s); }
}
static void d_msg(msg *m) {
  d_add(" {%s", tname[m->type]);
  for (int i = 0; i < m->na; i++) { d_add(" arg "); d_bytes(m->a[i], strlen(m->a[i])); }
  for (int i = 0; i < m->np; i++) { d_add(" %s=", m->k[i]); d_bytes(m->v[i], strlen(m->v[i])); }
  d_add("}");
}
static message_stream *mk(int sock) {
  message_stream *s = create_message_stream_file(FD_IN, FD_OUT);
  if (sock) { s->flags = TRAX_STREAM_SOCKET; s->socket.server = -1; s->socket.socket = FD_SOCK; }
  return s;
}
static void rm(message_stream *s) { s->flags = TRAX_STREAM_FILES; destroy_message_stream(&s); }

static bytes lg;
static void logger(const char *s, int n, void *d) { if (s) b_put(&lg, s, n); }

static void expect(message_stream *s, msg *m, trax_logging *log, string_list *args, trax_properties *props, const char *what) {
  trax_properties_clear(props);
  int t = read_message(s, log, args, props);
  CHECK(t == m->type, "%s: message type %d instead of %d", what, t, m->type);
  CHECK(list_size(args) == m->na, "%s: %d arguments instead of %d", what, list_size(args), m->na);
  for (int i = 0; i < m->na; i++) CHECK(!strcmp(args->buffer[i], m->a[i]), "%s: argument %d differs", what, i);
  CHECK(trax_properties_count(props) == m->np, "%s: %d named values instead of %d", what, trax_properties_count(props), m->np);
  for (int i = 0; i < m->np; i++) {
    char *v = trax_properties_get(props, m->k[i]);
    CHECK(v && !strcmp(v, m->v[i]), "%s: named value %s differs", what, m->k[i]);
    free(v);
  }
}

static void roundtrip(int c03) {
  while (more()) {
    ch_reset(); d_reset(); lg.n = 0;
    int n = 1 + R(4), sock = P(40), haslog = P(60);
    msg m[4];
    d_add("%s write split %d read split %d", sock ? "socket" : "files", ch_out.split, ch_in.split);
    trax_logging log = { 0, haslog ? logger : 0, 0 };
    message_stream *s = mk(sock);
    bytes ref = { 0 };
    for (int i = 0; i < n; i++) {
      rmsg(&m[i]); d_msg(&m[i]);
      string_list *l = list_create(1 + R(8));
      trax_properties *p = trax_properties_create();
      for (int j = 0; j < m[i].na; j++) list_append(l, m[i].a[j]);
      for (int j = 0; j < m[i].np; j++) trax_properties_set(p, m[i].k[j], m[i].v[j]);
      int before = ch_out.b.n;
      write_message(s, &log, m[i].type, m[i].na || P(50) ? l : 0, m[i].np || P(50) ? p : 0);
      if (c03) {
        /* the bytes on the wire, in order: prefix, type, quoted arguments; named values in any order */
        b_str(&ref, "@@TRAX:"); b_str(&ref, tname[m[i].type]); b_chr(&ref, ' ');
        for (int j = 0; j < m[i].na; j++) { b_chr(&ref, '"'); esc(&ref, m[i].a[j]); b_str(&ref, "\" "); }
        CHECK(ch_out.b.n - before >= ref.n && !memcmp(ch_out.b.p + before, ref.p, ref.n), "the message on the wire starts differently");
        int at = before + ref.n; char used[40] = { 0 };
        for (int j = 0; j < m[i].np; j++) {
          int hit = 0;
          for (int q = 0; q < m[i].np && !hit; q++) {
            if (used[q]) continue;
            bytes e = { 0 };
            b_chr(&e, '"'); b_str(&e, m[i].k[q]); b_chr(&e, '='); esc(&e, m[i].v[q]); b_str(&e, "\" ");
            if (ch_out.b.n - at >= e.n && !memcmp(ch_out.b.p + at, e.p, e.n)) { hit = used[q] = 1; at += e.n; }
            b_free(&e);
          }
          CHECK(hit, "named value %d of the message is not on the wire", j);
        }
        CHECK(ch_out.b.n == at + 1 && ch_out.b.p[at] == '\n', "the message does not end with one newline");
        ref.n = 0;
      }
      list_destroy(&l); trax_properties_release(&p);
    }
    if (haslog) CHECK(lg.n == ch_out.b.n && !memcmp(lg.p, ch_out.b.p, lg.n), "the log differs from what was sent");
    if (!c03) {
      /* read them back */
      b_put(&ch_in.b, ch_out.b.p, ch_out.b.n);
      lg.n = 0;
      string_list *l = list_create(1 + R(8));
      trax_properties *p = trax_properties_create();
      for (int i = 0; i < n; i++) expect(s, &m[i], &log, l, p, "round trip");
      if (haslog) CHECK(lg.n == ch_in.b.n && !memcmp(lg.p, ch_in.b.p, lg.n), "the log differs from what was received");
      CHECK(read_message(s, &log, l, p) == -1, "a message that was never written is read");
      list_destroy(&l); trax_properties_release(&p);
    }
    if (n > 1) distinct++;
    for (int i = 0; i < n; i++) msg_free(&m[i]);
    b_free(&ref); rm(s);
  }
}

/* text of a message in any of the ways the grammar allows */
static void style(bytes *b, msg *m) {
  b_str(b, "@@TRAX:");
  const char *t = m->type == 5 && P(50) ? "status" : tname[m->type];
  for (; *t; t++) b_chr(b, P(10) && *t >= 'a' ? *t - 32 : *t);
  int ia = 0, ip = 0, sep = 1;
  if (m->na + m->np == 0 && P(50)) { b_chr(b, '\n'); return; }
  b_chr(b, ' ');
  while (ia < m->na || ip < m->np) {
    while (P(10)) b_chr(b, P(80) ? ' ' : '\r');
    int arg = ia < m->na && (ip >= m->np || P(50)), last = ia + ip + 1 == m->na + m->np;
    const char *k = arg ? m->a[ia] : m->k[ip], *v = arg ? 0 : m->v[ip];
    int q = P(50) || (arg && (!*k || strchr("\" \r\n=\\", *k)));
    if (arg) ia++; else ip++;
    if (q) {
      b_chr(b, '"');
      esc(b, k); if (v) { b_chr(b, '='); esc(b, v); }
      b_chr(b, '"');
    } else {
      for (int pass = 0; pass < 2; pass++) {
        const char *s = pass ? v : k;
        if (!s) break;
        if (pass) b_chr(b, '=');
        for (; *s; s++) {
          if (*s == ' ' || *s == '\\' || (*s == '"' && P(50)) || *s == '\n') b_chr(b, '\\');
          b_chr(b, *s == '\n' ? 'n' : *s);
        }
      }
    }
    sep = !last || P(60);
    if (sep) b_chr(b, ' ');
  }
  while (sep && P(20)) b_chr(b, P(50) ? ' ' : '\r');
  b_chr(b, '\n');
}
static void noise(bytes *b) {
  int k = R(9);
  if (k == 0) b_str(b, "\n");
  else if (k == 1) { for (int i = R(30); i > 0; i--) { char c = (char) rnd(); if (c == '\n') c = 'x'; b_chr(b, c); } if (b->n && b->p[b->n - 1] == ':') b_chr(b, ':'); b_str(b, "\n"); }
  else if (k == 2) { const char *t = "@@TRAX:"; int n = R(7); b_put(b, t, n); b_chr(b, "x@T:q "[R(6)] == t[n] ? '!' : '\xff'); if (P(50)) b_str(b, "@@TRAX:quit "); b_str(b, "\n"); }
  else if (k == 3) { b_str(b, "@@TRAX:"); b_str(b, (const char*[]) { "", "bogus", "hell", "hellos", "quitx", "0" }[R(6)]); b_str(b, P(50) ? "\n" : " \"a\" \"k=v\"\n"); }
  else if (k == 4) { b_str(b, "@@TRAX:frame \"a\"b \"x=y\"\n"); }
  else if (k == 5) { b_str(b, "@@TRAX:state \"junk\" \"key=val"); b_str(b, P(50) ? "\\\n" : "\"@\n"); }
  else if (k == 6) { b_str(b, "@@TRAX:quit unq\\\n"); }
  else if (k == 7) { b_str(b, "@@TRAX:st\"ate \"a\"\n"); }
  else { b_str(b, "log line @@TRAX:state \"no\"\n"); }
}
static void framing(void) {
  while (more()) {
    ch_reset(); d_reset();
    int n = 1 + R(4);
    msg m[4];
    for (int i = 0; i < n; i++) {
      rmsg(&m[i]);
      /* a malformed line before the message may have left text behind; names in unquoted form */
      while (P(40)) noise(&ch_in.b);
      style(&ch_in.b, &m[i]);
    }
    while (P(30)) noise(&ch_in.b);
    d_add("read split %d input ", ch_in.split); d_bytes(ch_in.b.p, ch_in.b.n);
    message_stream *s = mk(P(40));
    string_list *l = list_create(1 + R(8));
    trax_properties *p = trax_properties_create();
    for (int i = 0; i < n; i++) expect(s, &m[i], 0, l, p, "framing");
    CHECK(read_message(s, 0, l, p) == -1, "noise at the end is taken for a message");
    CHECK(read_message(s, 0, l, p) == -1, "the end of the stream is not reported again");
    list_destroy(&l); trax_properties_release(&p);
    for (int i = 0; i < n; i++) msg_free(&m[i]);
    rm(s);
    if (n > 1) distinct++;
  }
}

static void fuzz(void) {
  while (more()) {
    ch_reset(); d_reset();
    int n = R(5);
    bytes *b = &ch_in.b;
    if (P(3)) { int k = R(3); b_str(b, "@@TRAX:frame "); if (k == 0) b_chr(b, '"'); int len = RR(4000, 9000); for (int i = 0; i < len; i++) b_chr(b, "ab=\\"[k == 1 ? R(4) : 0]); }
    for (int i = 0; i < n; i++) { msg m; rmsg(&m); if (P(40)) noise(b); style(b, &m); msg_free(&m); }
    if (b->n && P(80)) for (int i = R(6); i >= 0; i--) { int at = R(b->n); if (P(30)) { int k = R(20); if (at + k < b->n) { memmove(b->p + at, b->p + at + k, b->n - at - k); b->n -= k; } } else b->p[at] = P(50) ? (char) rnd() : "\"\\\n =\xff\0:@"[R(9)]; }
    if (P(30)) for (int i = R(200); i > 0; i--) b_chr(b, (char) rnd());
    d_add("read split %d input ", ch_in.split); d_bytes(b->p, b->n);
    message_stream *s = mk(P(40));
    string_list *l = list_create(1 + R(3));
    trax_properties *p = trax_properties_create();
    int k = 0;
    for (;; k++) {
      int t = read_message(s, 0, l, p);
      CHECK(t == -1 || t >= 1 && t <= 5, "message type %d", t);
      for (int i = 0; i < list_size(l); i++) CHECK(l->buffer[i] && strlen(l->buffer[i]) <= (size_t) b->n, "argument without text");
      if (t == -1) break;
      CHECK(k <= b->n, "more messages than bytes");
      trax_properties_clear(p);
    }
    if (k > 1) distinct++;
    list_destroy(&l); trax_properties_release(&p); rm(s);
  }
}

int main(int argc, char **argv) {
  start(argc, argv);
  const char *m = argc > 1 ? argv[1] : "C01";
  if (!strcmp(m, "C01")) { roundtrip(0); return finish("random messages written and read back over channels with random splits; nontrivial: several messages"); }
  if (!strcmp(m, "C02")) { framing(); return finish("messages in every notation between noise and malformed lines; nontrivial: several messages"); }
  if (!strcmp(m, "C03")) { roundtrip(1); return finish("messages written with short and zero-length writes, compared byte by byte with the wire and the log; nontrivial: several messages"); }
  if (!strcmp(m, "C04")) { fuzz(); return finish("mutated and random byte streams; nontrivial: several messages found"); }
  return 2;
}

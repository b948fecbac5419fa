/* Sessions: C16 client calls, C17 server calls, C18 termination, C19 hello. The real library talks over the in-memory
   channels; what it sends is parsed here and compared with a reference session, and it is fed the messages of a peer. */
#include "oracle.h"
#include "chan.h"
#include "trax.h"
#include "base64.h"
static int mode;
static const char *tname[] = { 0, "hello", "initialize", "frame", "quit", "state" };
typedef struct { int n; char *k[24], *v[24]; } set;
typedef struct { int type, na; char *a[64]; set p; } msg;
static void set_put(set *s, const char *k, const char *v) {
  for (int i = 0; i < s->n; i++) if (!strcmp(s->k[i], k)) { free(s->v[i]); s->v[i] = strdup(v); return; }
  s->k[s->n] = strdup(k); s->v[s->n++] = strdup(v);
}
static void set_free(set *s) { for (int i = 0; i < s->n; i++) { free(s->k[i]); free(s->v[i]); } s->n = 0; }
static void msg_free(msg *m) { for (int i = 0; i < m->na; i++) free(m->a[i]); set_free(&m->p); memset(m, 0, sizeof *m); }
static void esc(bytes *b, const char *s) { for (; *s; s++) { if (*s == '"' || *s == '\\' || *s == '\n') b_chr(b, '\\'); b_chr(b, *s == '\n' ? 'n' : *s); } }
static void rset(set *s) {
  s->n = 0;
  for (int i = P(35) ? 0 : R(6); i > 0; i--) {
    static const char *ks[] = { "alpha", "beta", "a.b", "x_1", "Z", "trax.custom", "trax.other", "confidence", "trax", "q9" };
    char v[40]; int n = R(12);
    for (int j = 0; j < n; j++) v[j] = "ab \"\\\n=;:9\xe9"[R(11)];
    v[n] = 0;
    set_put(s, ks[R(10)], v);
  }
}
static trax_properties *to_props(set *s) { trax_properties *p = trax_properties_create(); for (int i = 0; i < s->n; i++) trax_properties_set(p, s->k[i], s->v[i]); return p; }
static void d_set(set *s) { for (int i = 0; i < s->n; i++) { d_add(" %s=", s->k[i]); d_bytes(s->v[i], strlen(s->v[i])); } }
static void same_set(trax_properties *p, set *s, const char *what) {
  CHECK(p && trax_properties_count(p) == s->n, "%s: %d named values instead of %d", what, p ? trax_properties_count(p) : -1, s->n);
  for (int i = 0; i < s->n; i++) { char *v = trax_properties_get(p, s->k[i]); CHECK(v && !strcmp(v, s->v[i]), "%s: value %s differs", what, s->k[i]); free(v); }
}
static int seen;   /* output that has been looked at */
static int keychar(int c) { return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '.' || c == '_'; }
/* the next message of the output must be m */
static void sent(msg *m, const char *what) {
  bytes *o = &ch_out.b;
  char head[40]; sprintf(head, "@@TRAX:%s ", tname[m->type]);
  CHECK(o->n - seen >= (int) strlen(head) && !memcmp(o->p + seen, head, strlen(head)), "%s: no %s message is sent but %.60s", what, tname[m->type], o->n > seen ? o->p + seen : "nothing");
  int i = seen + strlen(head), na = 0; set got = { 0 };
  while (i < o->n && o->p[i] == '"') {
    bytes t = { 0 }; b_put(&t, "", 0);
    for (i++; i < o->n && o->p[i] != '"'; i++) { if (o->p[i] == '\\') { i++; b_chr(&t, o->p[i] == 'n' ? '\n' : o->p[i]); } else b_chr(&t, o->p[i]); }
    CHECK(i + 1 < o->n && o->p[i + 1] == ' ', "%s: malformed message", what);
    i += 2;
    int k = 0; while (keychar((unsigned char) t.p[k])) k++;
    if (na >= m->na && t.p[k] == '=') { t.p[k] = 0; CHECK(got.n < 24, "%s: too many values", what); set_put(&got, t.p, t.p + k + 1); }
    else { CHECK(na < m->na, "%s: more than %d arguments", what, m->na); CHECK(!strcmp(t.p, m->a[na]), "%s: argument %d is %.60s instead of %.60s", what, na, t.p, m->a[na]); na++; }
    b_free(&t);
  }
  CHECK(i < o->n && o->p[i] == '\n', "%s: the message does not end", what);
  CHECK(na == m->na, "%s: %d arguments instead of %d", what, na, m->na);
  CHECK(got.n == m->p.n, "%s: %d named values sent instead of %d", what, got.n, m->p.n);
  for (int a = 0; a < m->p.n; a++) { int hit = 0; for (int b = 0; b < got.n; b++) hit |= !strcmp(got.k[b], m->p.k[a]) && !strcmp(got.v[b], m->p.v[a]); CHECK(hit, "%s: value %s is not sent", what, m->p.k[a]); }
  set_free(&got);
  seen = i + 1;
}
static void silent(const char *what) { CHECK(ch_out.b.n == seen, "%s: unexpected output %.80s", what, ch_out.b.p + seen); }
static void feed(msg *m) {
  bytes *b = &ch_in.b;
  b_str(b, "@@TRAX:"); b_str(b, tname[m->type]); b_chr(b, ' ');
  for (int i = 0; i < m->na; i++) { b_chr(b, '"'); esc(b, m->a[i]); b_str(b, "\" "); }
  for (int i = 0; i < m->p.n; i++) { b_chr(b, '"'); b_str(b, m->p.k[i]); b_chr(b, '='); esc(b, m->p.v[i]); b_str(b, "\" "); }
  b_chr(b, '\n');
  d_add(" <%s", tname[m->type]); for (int i = 0; i < m->na; i++) { d_add(" "); d_bytes(m->a[i], strlen(m->a[i])); } d_set(&m->p); d_add(">");
}
static void arg(msg *m, char *s) { m->a[m->na++] = s; }
/* images with their text */
static trax_image *rimage(int formats, char **text) {
  int t; do t = 1 << R(4); while (!(formats & t));
  char b[600];
  if (t == TRAX_IMAGE_PATH) { char p[40]; sprintf(p, "/data/%d \"x\"/%d.jpg", R(99), R(9)); if (text) { sprintf(b, "file://%s", p); *text = strdup(b); } return trax_image_create_path(p); }
  if (t == TRAX_IMAGE_URL) { sprintf(b, "http://host/%d?a=%d;b", R(99), R(9)); if (text) *text = strdup(b); return trax_image_create_url(b); }
  unsigned char d[48]; for (int i = 0; i < 48; i++) d[i] = rnd();
  if (t == TRAX_IMAGE_BUFFER) {
    int f = R(2), n = RR(12, 40);
    if (f) memcpy(d, "\xff\xd8\xff\xe0", 4); else memcpy(d, "\x89PNG\r\n\x1a\n", 8);
    int h = sprintf(b, "data:%s;", f ? "image/jpeg" : "image/png");
    base64encode(b + h, d, n);
    if (text) *text = strdup(b);
    return trax_image_create_buffer(n, (char*) d);
  }
  int f = 1 + R(3), w = RR(1, 4), h = RR(1, 4), n = w * h * (f == TRAX_IMAGE_MEMORY_GRAY8 ? 1 : f == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 3);
  int o = sprintf(b, "image:%d;%d;%s;", w, h, f == TRAX_IMAGE_MEMORY_GRAY8 ? "gray8" : f == TRAX_IMAGE_MEMORY_GRAY16 ? "gray16" : "rgb");
  trax_image *im = trax_image_create_memory(w, h, f);
  int row = n / h;
  for (int r = 0; r < h; r++) memcpy(trax_image_write_memory_row(im, r), d + r * row, row);
  base64encode(b + o, d, n);
  if (text) *text = strdup(b);
  return im;
}
static trax_region *rregion(int formats) {
  int t; do t = 1 << R(4); while (!(formats & t));
  if (t == TRAX_REGION_SPECIAL) return trax_region_create_special(R(5));
  if (t == TRAX_REGION_RECTANGLE) return trax_region_create_rectangle(R(400) / 4.0, R(400) / 4.0 - 20, 1 + R(100) / 4.0, 1 + R(100) / 4.0);
  if (t == TRAX_REGION_MASK) { int w = RR(1, 6), h = RR(1, 6); trax_region *m = trax_region_create_mask(R(9), R(9), w, h); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) trax_region_write_mask_row(m, y)[x] = x == 0 || P(50); return m; }
  int n = RR(3, 6);
  trax_region *p = trax_region_create_polygon(n);
  for (int i = 0; i < n; i++) trax_region_set_polygon_point(p, i, R(400) / 4.0, R(400) / 4.0);
  return p;
}
static trax_image_list *rimages(char **text, int missing) {
  trax_image_list *l = trax_image_list_create();
  for (int c = 0; c < 3; c++) { text[c] = 0; if (!P(missing)) trax_image_list_set(l, rimage(15, &text[c]), c == 0 ? TRAX_CHANNEL_COLOR : c == 1 ? TRAX_CHANNEL_DEPTH : TRAX_CHANNEL_IR); }
  return l;
}
static const int chan_id[3] = { TRAX_CHANNEL_COLOR, TRAX_CHANNEL_DEPTH, TRAX_CHANNEL_IR };
static void fmt_names(bytes *b, int mask, const char **names, int n, int bad, int *unknown) {
  b_put(b, "", 0);
  int first = 1;
  for (int i = 0; i < n; i++) if (mask >> i & 1) { if (!first) b_str(b, P(8) ? ";;" : ";"); b_str(b, names[i]); first = 0; }
  *unknown = 0;
  if (P(bad)) { if (!first) b_chr(b, ';'); b_str(b, (const char*[]) { "bogus", "rectangles", "pat", "Color", "special", "pathx" }[R(6)]); *unknown = 1; first = 0; }
  if (!first && P(50)) b_chr(b, ';');
}
static const char *rn[] = { "rectangle", "polygon", "mask" }, *in[] = { "path", "url", "memory", "buffer" }, *cn[] = { "color", "depth", "ir" };
static const char *names[] = { "trax.name", "trax.description", "trax.family" };

/* ---- client ---- */
static trax_handle *h; static int ver, multi, rf, cm, objects, alive;
static trax_logging lg0;
/* the client reads a hello message; returns 0 if it must refuse it */
static int hello_client(int bad) {
  ch_reset(); seen = 0;
  msg m = { TRAX_HELLO }; set ext = { 0 }; rset(&ext);
  int imf, u1 = 0, u2 = 0, u3 = 0, ok = 1, hasr = !P(bad), hasi = !P(bad), hasc = !P(bad), hasv = !P(bad);
  bytes b = { 0 };
  rf = 1 + R(7); imf = 1 + R(15); cm = 1 + R(7); ver = RR(1, 4); if (P(bad)) ver = RR(0, 9);
  multi = P(60);
  if (hasr) { fmt_names(&b, rf, rn, 3, bad, &u1); set_put(&m.p, "trax.region", b.p); b.n = 0; }
  if (hasi) { fmt_names(&b, imf, in, 4, bad, &u2); set_put(&m.p, "trax.image", b.p); b.n = 0; }
  if (hasc) { fmt_names(&b, cm, cn, 3, bad, &u3); set_put(&m.p, "trax.channels", b.p); b.n = 0; }
  char t[20]; sprintf(t, "%d", ver);
  if (hasv) set_put(&m.p, "trax.version", t); else ver = 1;
  if (multi || P(20)) { set_put(&m.p, "trax.multiobject", multi ? P(80) ? "1" : "7" : "0"); }
  int hn[3]; for (int i = 0; i < 3; i++) if ((hn[i] = P(50))) set_put(&m.p, names[i], (const char*[]) { "abc", "", "a \"b\"\nc" }[i]);
  set custom = { 0 };
  for (int i = 0; i < ext.n; i++) { set_put(&m.p, ext.k[i], ext.v[i]); if (strncmp(ext.k[i], "trax.", 5)) set_put(&custom, ext.k[i], ext.v[i]); }
  if (P(bad / 2)) { arg(&m, strdup("extra")); ok = 0; }
  if (P(bad / 3)) { m.type = 2 + R(4); ok = 0; }
  if (P(bad / 3)) { ok = 0; d_add("no hello"); } else feed(&m);
  if (u1 || u2 || (u3 && ver >= 2)) ok = 0;
  memset(&lg0, 0, sizeof lg0);
  h = trax_client_setup_file(FD_IN, FD_OUT, lg0);
  CHECK((h != 0) == ok, "the session is %s", ok ? "refused" : "accepted in spite of a bad hello message");
  silent("client setup");
  if (h) {
    if (!hasr) rf = 1;
    if (!hasi) imf = 1;
    if (!hasc || ver < 2) cm = 1;
    multi = multi && ver > 3;
    int v = -1;
    CHECK(trax_get_parameter(h, TRAX_PARAMETER_VERSION, &v) && v == ver, "version %d instead of %d", v, ver);
    CHECK(trax_get_parameter(h, TRAX_PARAMETER_CLIENT, &v) && v == 1, "not a client");
    CHECK(trax_get_parameter(h, TRAX_PARAMETER_MULTIOBJECT, &v) && v == multi, "multi object mode %d instead of %d", v, multi);
    CHECK(h->metadata->format_region == rf << 1, "region formats %d instead of %d", h->metadata->format_region, rf << 1);
    CHECK(h->metadata->format_image == imf, "image formats %d instead of %d", h->metadata->format_image, imf);
    CHECK(h->metadata->channels == ((cm & 1 ? TRAX_CHANNEL_COLOR : 0) | (cm & 2 ? TRAX_CHANNEL_DEPTH : 0) | (cm & 4 ? TRAX_CHANNEL_IR : 0)), "channels %d", h->metadata->channels);
    char *g[3] = { h->metadata->tracker_name, h->metadata->tracker_description, h->metadata->tracker_family };
    for (int i = 0; i < 3; i++) CHECK((g[i] != 0) == hn[i] && (!hn[i] || !strcmp(g[i], (const char*[]) { "abc", "", "a \"b\"\nc" }[i])), "%s differs", names[i]);
    same_set(h->metadata->custom, &custom, "hello");
    objects = 0; alive = 1;
  }
  msg_free(&m); set_free(&ext); set_free(&custom); b_free(&b);
  return ok;
}
/* text that a region must have for the formats of the peer */
static char *sent_region(trax_region *r) {
  if (trax_region_get_type(r) & rf << 1) return trax_region_encode(r);
  int best = rf & 4 ? TRAX_REGION_MASK : rf & 2 ? TRAX_REGION_POLYGON : TRAX_REGION_RECTANGLE;
  trax_region *c = trax_region_convert(r, best);
  CHECK(c != 0, "a region can not be converted");
  char *t = trax_region_encode(c);
  trax_region_release(&c);
  return t;
}
static void chk_alive(const char *what) { CHECK(!trax_is_alive(h) == !alive, "%s: the session is %salive", what, alive ? "not " : "still "); }

static void client_send(int init) {
  char *text[3]; set ps; rset(&ps);
  trax_image_list *im = rimages(text, 4);
  int n = init ? R(4) : P(60) || ver < 4 && P(80) ? 0 : R(3), i;
  if (P(60) && !multi && n > 1) n = 1;
  if (P(1)) n += 30;
  trax_object_list *ol = !init && n == 0 && P(50) ? 0 : trax_object_list_create(n);
  set os[40]; char *rt[40];
  d_add("\n%s %d objects, images %d%d%d;", init ? "initialize" : "frame", n, !!text[0], !!text[1], !!text[2]); d_set(&ps);
  for (i = 0; i < n; i++) {
    trax_region *r = rregion(14);
    rset(&os[i]); rt[i] = sent_region(r);
    trax_object_list_set(ol, i, r);
    for (int j = 0; j < os[i].n; j++) trax_properties_set(trax_object_list_properties(ol, i), os[i].k[j], os[i].v[j]);
    d_add(" object "); d_bytes(rt[i], strlen(rt[i])); d_set(&os[i]);
    trax_region_release(&r);
  }
  trax_properties *p = ps.n || P(50) ? to_props(&ps) : 0;
  int full = 1; for (i = 0; i < 3; i++) if (cm >> i & 1 && !text[i]) full = 0;
  int ok = alive && full;
  if (init) ok = ok && n >= 1 && (multi || n == 1);
  else if (ver >= 4) ok = ok && (multi || objects + n <= 1);
  else ok = ok && n == 0;
  if (ok && mode == 18) d_add("(ok)");
  const char *what = init ? "initialize" : "frame";
  int calls = ch_in.calls;
  int rc = init ? trax_client_initialize(h, im, ol, p) : trax_client_frame(h, im, ol, p);
  CHECK(rc == (ok ? TRAX_OK : TRAX_ERROR), "%s returns %d instead of %d", what, rc, ok ? TRAX_OK : TRAX_ERROR);
  CHECK(ch_in.calls == calls, "%s reads", what);
  if (ok) {
    msg m = { 0 };
    if (init && ver >= 4 && objects > 0) { m.type = TRAX_INITIALIZE; sent(&m, "reset"); objects = 0; }
    if (ver >= 4) {
      for (i = 0; i < n; i++) { m.type = TRAX_INITIALIZE; arg(&m, rt[i]); m.p = os[i]; sent(&m, what); m.na = 0; m.p.n = 0; }
      objects += n;
    }
    m.type = ver < 4 && init ? TRAX_INITIALIZE : TRAX_FRAME;
    for (i = 0; i < 3; i++) if (cm >> i & 1) arg(&m, text[i]);
    if (ver < 4 && init) { arg(&m, rt[0]); objects = 1; }
    m.p = ps;
    sent(&m, what);
    distinct++;
  }
  silent(what); chk_alive(what);
  if (rc == TRAX_OK) CHECK(!trax_get_error(h), "error text after success");
  for (i = 0; i < 3; i++) { trax_image *x = trax_image_list_get(im, chan_id[i]); if (x) trax_image_release(&x); free(text[i]); }
  for (i = 0; i < n; i++) { free(rt[i]); set_free(&os[i]); }
  trax_image_list_release(&im); if (ol) trax_object_list_release(&ol); if (p) trax_properties_release(&p); set_free(&ps);
}
static int client_wait(void) {
  if (objects == 0) return 1;
  msg m[64] = { 0 }; int n = objects, bad = 0, quit = -1, i, fin = 1;
  if (n > 60) return 0;
  d_add("\nwait for %d objects;", n);
  if (alive)
  for (i = 0; i < n; i++) {
    m[i].type = TRAX_STATE; rset(&m[i].p);
    trax_region *r = rregion(15); arg(&m[i], trax_region_encode(r)); trax_region_release(&r);
    if (P(6)) { quit = i; m[i].type = TRAX_QUIT; free(m[i].a[0]); m[i].na = 0; if (P(15)) { arg(&m[i], strdup("x")); bad = 1; } }
    else if (P(2)) { bad = 1; m[i].type = (int[]) { TRAX_HELLO, TRAX_INITIALIZE, TRAX_FRAME }[R(3)]; if (P(50)) { free(m[i].a[0]); m[i].na = 0; } }
    else if (P(1)) { bad = 1; arg(&m[i], strdup("more")); }
    else if (P(1)) { bad = 1; free(m[i].a[0]); m[i].na = 0; }
    else if (P(1)) { bad = 1; free(m[i].a[0]); m[i].a[0] = strdup((const char*[]) { "", "1,2", "1,2,3", "mask:0,0,-1,2" , "1,2,3,4,5" }[R(5)]); }
    if (P(1)) { bad = 1; break; } /* end of the stream */
    feed(&m[i]);
    if (bad || quit >= 0) break;
  }
  trax_object_list *ol = (trax_object_list*) 1;
  set got0; rset(&got0); trax_properties *p = P(80) ? to_props(&got0) : 0;
  int calls = ch_in.calls;
  int rc = trax_client_wait(h, &ol, p);
  silent("wait");
  if (!alive || bad) {
    CHECK(rc == TRAX_ERROR && !ol, "wait returns %d in a %s", rc, alive ? "broken conversation" : "terminated session");
    if (!alive) CHECK(ch_in.calls == calls, "wait reads in a terminated session");
    if (p) same_set(p, &got0, "failed wait");
    fin = !alive;
  } else if (quit >= 0) {
    CHECK(rc == TRAX_QUIT && !ol, "wait returns %d instead of quit", rc);
    alive = 0;
    if (p) { for (int j = 0; j < m[quit].p.n; j++) set_put(&got0, m[quit].p.k[j], m[quit].p.v[j]); same_set(p, &got0, "quit"); }
  } else {
    CHECK(rc == TRAX_STATE && ol, "wait returns %d instead of the state", rc);
    CHECK(trax_object_list_count(ol) == n, "%d states instead of %d", trax_object_list_count(ol), n);
    for (i = 0; i < n; i++) {
      char *t = trax_region_encode(trax_object_list_get(ol, i));
      CHECK(t && !strcmp(t, m[i].a[0]), "state %d is %.60s", i, t);
      free(t);
      same_set(trax_object_list_properties(ol, i), &m[i].p, "state");
    }
    if (p) same_set(p, &got0, "wait");
    trax_object_list_release(&ol);
    if (n > 1) distinct++;
  }
  chk_alive("wait");
  if (p) trax_properties_release(&p);
  set_free(&got0);
  for (i = 0; i < n; i++) msg_free(&m[i]);
  return fin;
}
static void terminate(void) {
  const char *r = P(50) ? (const char*[]) { "done", "", "a\n\"b\"" }[R(3)] : 0;
  d_add("\nterminate %s;", r ? r : "without reason");
  CHECK(trax_terminate(h, r) == TRAX_OK, "terminate fails");
  if (alive) { msg m = { TRAX_QUIT }; if (r) set_put(&m.p, "trax.reason", r); sent(&m, "terminate"); msg_free(&m); }
  alive = 0;
  silent("terminate"); chk_alive("terminate");
}
static void cleanup(void) {
  d_add("\ncleanup");
  CHECK(trax_cleanup(&h) >= 0 && !h, "cleanup");
  if (alive) { msg m = { TRAX_QUIT }; sent(&m, "cleanup"); }
  alive = 0;
  silent("cleanup");
}
static void client(void) {
  while (more()) {
    d_reset();
    if (!hello_client(0)) continue;
    int ok = 1;
    for (int k = RR(1, mode == 18 ? 12 : 8); ok && k > 0; k--) {
      int o = R(100);
      if (o < 30) client_send(1);
      else if (o < 60) client_send(0);
      else if (o < 90 - (mode == 18) * 10) ok = client_wait();
      else if (o < 96) terminate();
      else if (!alive) { int v; CHECK(trax_get_parameter(h, TRAX_PARAMETER_VERSION, &v) == TRAX_ERROR, "parameter of a terminated session"); }
    }
    cleanup();
  }
}

/* ---- server ---- */
static int img;
static void hello_server(void) {
  ch_reset(); seen = 0;
  trax_metadata md; memset(&md, 0, sizeof md);
  set ext = { 0 }; rset(&ext);
  rf = 1 + R(7); img = 1 + R(15); cm = 1 + R(7); multi = P(60);
  int v = RR(mode == 19 ? -1 : 1, 4);
  md.format_region = rf << 1; md.format_image = img; md.channels = (cm & 1 ? TRAX_CHANNEL_COLOR : 0) | (cm & 2 ? TRAX_CHANNEL_DEPTH : 0) | (cm & 4 ? TRAX_CHANNEL_IR : 0);
  md.flags = multi ? TRAX_METADATA_MULTI_OBJECT : 0;
  char *g[3]; for (int i = 0; i < 3; i++) g[i] = P(50) ? strdup((const char*[]) { "abc", "", "a \"b\"\nc" }[R(3)]) : 0;
  md.tracker_name = g[0]; md.tracker_description = g[1]; md.tracker_family = g[2];
  md.custom = ext.n || P(50) ? to_props(&ext) : 0;
  d_add("server version %d region %d image %d channels %d multi %d", v, rf, img, cm, multi); d_set(&ext);
  memset(&lg0, 0, sizeof lg0);
  h = trax_server_setup_file_v(&md, FD_IN, FD_OUT, lg0, v);
  ver = v < 1 ? TRAX_VERSION : v;
  multi = multi && ver >= 4;
  CHECK(h != 0, "no session");
  msg m = { TRAX_HELLO }; bytes b = { 0 };
  for (int i = 0; i < ext.n; i++) set_put(&m.p, ext.k[i], ext.v[i]);
  b.n = 0; for (int i = 0; i < 3; i++) if (rf >> i & 1) { b_str(&b, rn[i]); b_chr(&b, ';'); } set_put(&m.p, "trax.region", b.p);
  b.n = 0; for (int i = 0; i < 4; i++) if (img >> i & 1) { b_str(&b, in[i]); b_chr(&b, ';'); } set_put(&m.p, "trax.image", b.p);
  b.n = 0; for (int i = 0; i < 3; i++) if (cm >> i & 1) { b_str(&b, cn[i]); b_chr(&b, ';'); } set_put(&m.p, "trax.channels", b.p);
  char t[20]; sprintf(t, "%d", ver); set_put(&m.p, "trax.version", t);
  if (multi) set_put(&m.p, "trax.multiobject", "1");
  for (int i = 0; i < 3; i++) if (g[i]) set_put(&m.p, names[i], g[i]);
  sent(&m, "hello"); silent("hello");
  int x = -1;
  CHECK(trax_get_parameter(h, TRAX_PARAMETER_VERSION, &x) && x == ver, "version %d instead of %d", x, ver);
  CHECK(trax_get_parameter(h, TRAX_PARAMETER_CLIENT, &x) && x == 0, "not a server");
  CHECK(trax_get_parameter(h, TRAX_PARAMETER_MULTIOBJECT, &x) && x == multi, "multi object mode %d instead of %d", x, multi);
  objects = 0; alive = 1;
  msg_free(&m); set_free(&ext); b_free(&b); if (md.custom) trax_properties_release(&md.custom); for (int i = 0; i < 3; i++) free(g[i]);
}
/* arguments of a frame; text of the images that must come out; returns 0 if they must be refused */
static int frame_args(msg *m, char **text) {
  int ok = 1;
  for (int c = 0; c < 3; c++) {
    text[c] = 0;
    if (!(cm >> c & 1)) continue;
    int bad = P(2), unsup = P(3) && img != 15;
    trax_image *x = rimage(unsup ? 15 & ~img : img, &text[c]);
    trax_image_release(&x);
    if (unsup) ok = 0;
    if (bad) { free(text[c]); text[c] = strdup((const char*[]) { "image:2;2;rgb;AAAA", "image:x;1;gray8;AAAA", "data:image/gif;AAAA", "image:1;1;gray9;AAAA" }[R(4)]); ok = 0; }
    arg(m, strdup(text[c]));
  }
  if (P(2)) { ok = 0; if (P(50) && m->na) free(m->a[--m->na]); else arg(m, strdup("http://more")); }
  return ok;
}
static char *img_text(trax_image *x) {
  bytes b = { 0 }; char t[80];
  int ty = trax_image_get_type(x);
  if (ty == TRAX_IMAGE_PATH) { b_str(&b, "file://"); b_str(&b, trax_image_get_path(x)); }
  else if (ty == TRAX_IMAGE_URL) b_str(&b, trax_image_get_url(x));
  else if (ty == TRAX_IMAGE_MEMORY) {
    int w, hh, f; trax_image_get_memory_header(x, &w, &hh, &f);
    sprintf(t, "image:%d;%d;%s;", w, hh, f == TRAX_IMAGE_MEMORY_GRAY8 ? "gray8" : f == TRAX_IMAGE_MEMORY_GRAY16 ? "gray16" : "rgb"); b_str(&b, t);
    char e[400]; base64encode(e, (unsigned char*) trax_image_get_memory_row(x, 0), w * hh * (f == TRAX_IMAGE_MEMORY_GRAY8 ? 1 : f == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 3)); b_str(&b, e);
  } else {
    int n, f; const char *d = trax_image_get_buffer(x, &n, &f);
    sprintf(t, "data:%s;", f == TRAX_IMAGE_BUFFER_PNG ? "image/png" : "image/jpeg"); b_str(&b, t);
    char e[400]; base64encode(e, (unsigned char*) d, n); b_str(&b, e);
  }
  return b.p;
}
static void same_images(trax_image_list *im, char **text, const char *what) {
  CHECK(im != 0, "%s: no images", what);
  for (int c = 0; c < 3; c++) {
    trax_image *x = trax_image_list_get(im, chan_id[c]);
    CHECK((x != 0) == (cm >> c & 1), "%s: image of channel %d %s", what, c, x ? "not asked for" : "missing");
    if (x) { char *t = img_text(x); CHECK(!strcmp(t, text[c]), "%s: image of channel %d is %.60s instead of %.60s", what, c, t, text[c]); free(t); trax_image_release(&x); }
  }
}
static void wait_sot(void) {
  msg m = { 0 }; char *text[3] = { 0 }; int ok = 1, o = R(100), eof = 0; char *rt = 0;
  d_add("\nwait (single);");
  rset(&m.p);
  if (o < 45) { m.type = TRAX_INITIALIZE; ok = frame_args(&m, text); trax_region *r = rregion(15); rt = trax_region_encode(r); trax_region_release(&r); if (P(3)) { ok = 0; free(rt); rt = strdup("1,2,3"); } arg(&m, strdup(rt)); }
  else if (o < 80) { m.type = TRAX_FRAME; ok = frame_args(&m, text); }
  else if (o < 90) { m.type = TRAX_QUIT; if (P(20)) { arg(&m, strdup("x")); ok = 0; } }
  else if (o < 97) { m.type = P(50) ? TRAX_HELLO : TRAX_STATE; ok = 0; if (P(50)) arg(&m, strdup("1,2,3,4")); }
  else { eof = 1; ok = 0; }
  int go = alive && ver < 4;
  if (go && !eof) feed(&m);
  if (go && eof) ch_in.pos = ch_in.b.n;
  trax_image_list *im = 0; trax_region *r = 0;
  set got; rset(&got); trax_properties *p = P(80) ? to_props(&got) : 0;
  int calls = ch_in.calls, rc = trax_server_wait_sot(h, &im, &r, p);
  silent("wait");
  if (!go) CHECK(ch_in.calls == calls, "wait reads although the session is terminated or has another mode");
  if (!go || !ok) { CHECK(rc == TRAX_ERROR && !im && !r, "wait returns %d instead of an error", rc); }
  else {
    CHECK(rc == m.type, "wait returns %d instead of %d", rc, m.type);
    for (int j = 0; j < m.p.n; j++) set_put(&got, m.p.k[j], m.p.v[j]);
    if (rc == TRAX_QUIT) { alive = 0; CHECK(!im && !r, "images with a quit message"); }
    else { same_images(im, text, "wait"); trax_image_list_release(&im); distinct++; }
    if (rc == TRAX_INITIALIZE) { char *t = trax_region_encode(r); CHECK(!strcmp(t, rt), "region %.60s instead of %.60s", t, rt); free(t); trax_region_release(&r); objects = 1; }
    else CHECK(!r, "unexpected region");
  }
  if (p) { same_set(p, &got, "wait"); trax_properties_release(&p); }
  chk_alive("wait");
  set_free(&got); msg_free(&m); free(rt); for (int c = 0; c < 3; c++) free(text[c]);
}
static void wait_mot(void) {
  msg m[40] = { 0 }; char *rt[40]; int nm = 0, no = 0, ok = 1, reset = 0, i; char *text[3] = { 0 }; int rc0 = TRAX_FRAME;
  d_add("\nwait (multi);");
  if (P(20)) { m[nm].type = TRAX_INITIALIZE; if (P(20)) rset(&m[nm].p); nm++; reset = 1; }
  no = P(2) ? RR(9, 30) : P(45) || reset && P(90) ? 1 + R(3) : 0;
  int want = no;
  for (i = 0; i < want && ok; i++) {
    msg *x = &m[nm++];
    x->type = TRAX_INITIALIZE; rset(&x->p);
    trax_region *r = rregion(15); rt[i] = trax_region_encode(r); trax_region_release(&r);
    arg(x, strdup(rt[i]));
    if (P(2)) { ok = 0; free(x->a[0]); x->a[0] = strdup("1,2,3"); }
    else if (P(2)) { ok = 0; arg(x, strdup("more")); }
    else if (P(2)) { ok = 0; x->type = P(50) ? TRAX_HELLO : TRAX_STATE; }
    if (!ok) { no = i + 1; }
  }
  int eof = 0;
  if (ok) {
    msg *x = &m[nm]; rset(&x->p);
    if (P(3)) { eof = 1; ok = 0; }
    else if (no == 0 && !reset && P(20)) { nm++; x->type = TRAX_QUIT; if (P(20)) { arg(x, strdup("x")); ok = 0; } rc0 = TRAX_QUIT; }
    else if (P(2)) { nm++; x->type = P(50) ? TRAX_HELLO : TRAX_STATE; ok = 0; if (P(50)) arg(x, strdup("1,2,3,4")); }
    else {
      nm++; x->type = TRAX_FRAME; if (!frame_args(x, text)) ok = 0;
      if (reset && no == 0) ok = 0;
      rc0 = no && (reset || objects == 0) ? TRAX_INITIALIZE : TRAX_FRAME;
    }
  }
  if (alive) for (i = 0; i < nm; i++) feed(&m[i]);
  trax_image_list *im = 0; trax_object_list *ol = (trax_object_list*) 1;
  set got; rset(&got); trax_properties *p = P(80) ? to_props(&got) : 0;
  int calls = ch_in.calls, rc = trax_server_wait_mot(h, &im, &ol, p);
  silent("wait");
  if (!alive) CHECK(ch_in.calls == calls, "wait reads in a terminated session");
  if (!alive || !ok) {
    CHECK(rc == TRAX_ERROR && !im && !ol, "wait returns %d instead of an error", rc);
    if (alive && reset) objects = 0;
  } else {
    CHECK(rc == rc0, "wait returns %d instead of %d", rc, rc0);
    if (reset) objects = 0;
    msg *x = &m[nm - 1];
    for (int j = 0; j < x->p.n; j++) set_put(&got, x->p.k[j], x->p.v[j]);
    if (rc == TRAX_QUIT) { alive = 0; CHECK(!im && !ol, "images with a quit message"); }
    else { same_images(im, text, "wait"); trax_image_list_release(&im); }
    CHECK((ol != 0) == (no > 0), "objects");
    if (ol) {
      CHECK(trax_object_list_count(ol) == no, "%d objects instead of %d", trax_object_list_count(ol), no);
      for (i = 0; i < no; i++) {
        char *t = trax_region_encode(trax_object_list_get(ol, i));
        CHECK(t && !strcmp(t, rt[i]), "object %d is %.60s instead of %.60s", i, t, rt[i]); free(t);
        same_set(trax_object_list_properties(ol, i), &m[reset + i].p, "object");
      }
      trax_object_list_release(&ol);
      if (no > 1) distinct++;
    }
    objects += no;
  }
  if (p) { same_set(p, &got, "wait"); trax_properties_release(&p); }
  chk_alive("wait");
  set_free(&got); for (i = 0; i < nm; i++) msg_free(&m[i]); for (i = 0; i < no; i++) free(rt[i]); for (int c = 0; c < 3; c++) free(text[c]);
}
static void reply_sot(void) {
  set ps; rset(&ps); trax_properties *p = ps.n || P(50) ? to_props(&ps) : 0;
  trax_region *r = rregion(15); char *t = trax_region_encode(r);
  d_add("\nreply "); d_bytes(t, strlen(t)); d_set(&ps);
  int ok = alive && ver < 4, calls = ch_in.calls, rc = trax_server_reply_sot(h, r, p);
  CHECK(rc == (ok ? TRAX_OK : TRAX_ERROR), "reply returns %d", rc);
  CHECK(ch_in.calls == calls, "reply reads");
  if (ok) { msg m = { TRAX_STATE }; arg(&m, t); m.p = ps; sent(&m, "reply"); distinct++; }
  silent("reply"); chk_alive("reply");
  free(t); trax_region_release(&r); if (p) trax_properties_release(&p); set_free(&ps);
}
static void reply_mot(void) {
  int n = P(80) ? objects : R(4), i;
  if (n > 60) return;
  trax_object_list *ol = trax_object_list_create(n);
  set os[64]; char *rt[64];
  d_add("\nreply with %d objects;", n);
  for (i = 0; i < n; i++) {
    trax_region *r = rregion(15); rset(&os[i]); rt[i] = trax_region_encode(r);
    trax_object_list_set(ol, i, r); trax_region_release(&r);
    for (int j = 0; j < os[i].n; j++) trax_properties_set(trax_object_list_properties(ol, i), os[i].k[j], os[i].v[j]);
    d_add(" object "); d_bytes(rt[i], strlen(rt[i])); d_set(&os[i]);
  }
  int ok = alive && n == objects && (multi || n == 1), calls = ch_in.calls, rc = trax_server_reply_mot(h, ol);
  CHECK(rc == (ok ? TRAX_OK : TRAX_ERROR), "reply returns %d instead of %d", rc, ok ? TRAX_OK : TRAX_ERROR);
  CHECK(ch_in.calls == calls, "reply reads");
  if (ok) for (i = 0; i < n; i++) { msg m = { TRAX_STATE }; arg(&m, rt[i]); m.p = os[i]; sent(&m, "reply"); if (n > 1) distinct++; }
  silent("reply"); chk_alive("reply");
  for (i = 0; i < n; i++) { free(rt[i]); set_free(&os[i]); }
  trax_object_list_release(&ol);
}
static void server(void) {
  while (more()) {
    d_reset(); hello_server();
    for (int k = RR(1, 12); k > 0; k--) {
      int o = R(100);
      if (o < 50) { if (ver < 4) wait_sot(); else wait_mot(); }
      else if (o < 90) { if (ver < 4) reply_sot(); else reply_mot(); }
      else if (o < 93) { if (ver < 4) reply_mot(); else reply_sot(); }
      else if (o < 95) { if (ver >= 4) wait_sot(); }
      else if (o < 98) terminate();
    }
    cleanup();
  }
}
static void hello(void) {
  while (more()) {
    d_reset();
    if (P(60)) { if (hello_client(P(50) ? 0 : 12)) { distinct++; cleanup(); } }
    else { hello_server(); distinct++; cleanup(); }
  }
}
int main(int argc, char **argv) {
  start(argc, argv);
  const char *m = argc > 1 ? argv[1] : "C16";
  mode = atoi(m + 1);
  if (mode == 16) client();
  if (mode == 17) server();
  if (mode == 18) { double e = t_end; t_end = (now() + e) / 2; client(); t_end = e; server(); }
  if (mode == 19) hello();
  return finish("sessions with at least one successful call, several objects, or an accepted hello");
}

// A strict reader of profile reports.
typedef struct { long id; uint64_t count, time; } RCall;
typedef struct { char name[600]; bool flat, selfs, graph, loc; uint64_t count, time, self; int nin, nout; RCall* in; RCall* out; char where[600]; } RBlock;
typedef struct { size_t n; RBlock* b; const char* err; char msg[400]; } Report;
static void rep_free(Report* r) { for (size_t i = 0; i < r->n; ++i) { free(r->b[i].in); free(r->b[i].out); } free(r->b); r->b = NULL; r->n = 0; }
static bool rep_bad(Report* r, const char* what, const char* line) { if (!r->err) { snprintf(r->msg, sizeof r->msg, "%s: '%.*s'", what, (int)strcspn(line, "\n") > 200 ? 200 : (int)strcspn(line, "\n"), line); r->err = r->msg; } return false; }
static const char* rep_line(const char** p, char* out, size_t cap) {
  size_t n = strcspn(*p, "\n"); if ((*p)[n] != '\n') return NULL;
  size_t m = n < cap - 1 ? n : cap - 1; memcpy(out, *p, m); out[m] = 0; *p += n + 1; return out;
}
static bool rep_num(const char** s, uint64_t* v) { while (**s == ' ') ++*s; if (**s < '0' || **s > '9') return false; *v = 0; while (**s >= '0' && **s <= '9') *v = *v * 10 + (uint64_t)(*(*s)++ - '0'); return true; }
// "name[00ffX]" with what follows; the id is at the last bracket.
static bool rep_name(char* s, char* name, size_t cap, long* id) {
  char* q = strrchr(s, '['); if (!q) return false;
  char* e; *id = strtol(q + 1, &e, 16);
  if (e < q + 5 || strcmp(e, "X]")) return false;
  snprintf(name, cap, "%.*s", (int)(q - s), s); return true;
}
// Reads the text of a report with n blocks. Names may not contain newlines.
static bool rep_parse(Report* r, const char* text, size_t n) {
  memset(r, 0, sizeof *r); r->n = n; r->b = calloc(n ? n : 1, sizeof(RBlock));
  const char* p = text; static char l[1400]; char name[600]; long id; uint64_t v;
  #define NEXT() do { if (!rep_line(&p, l, sizeof l)) return rep_bad(r, "the report ends early", p); } while (0)
  #define EXPECT(t) do { NEXT(); if (strcmp(l, t)) return rep_bad(r, "expected '" t "'", l); } while (0)
  EXPECT("Profile Report"); EXPECT("==============");
  NEXT(); { double pc; size_t k; if (sscanf(l, "blocks executed: %lf%% of %zu", &pc, &k) != 2 || k != n) return rep_bad(r, "wrong number of blocks", l); }
  EXPECT(""); EXPECT("Flat Profile by Overall Time"); EXPECT("----------------------------"); NEXT();
  uint64_t last = UINT64_MAX;
  for (size_t i = 0; i < n; ++i) {
    NEXT(); const char* s = l; uint64_t c, t, f; size_t len = strlen(l);
    if (strncmp(l, "** ", 3) || len < 10 || strcmp(l + len - 3, " **")) return rep_bad(r, "not a block line", l);
    l[len - 3] = 0; s += 2;
    if (!rep_num(&s, &c) || !rep_num(&s, &t) || !rep_num(&s, &f) || strncmp(s, "  ", 2)) return rep_bad(r, "bad numbers", l);
    if (!rep_name((char*)s + 2, name, sizeof name, &id) || id < 0 || (size_t)id >= n || r->b[id].flat) return rep_bad(r, "bad or repeated block", l);
    if (t > last) return rep_bad(r, "not sorted by time", l); last = t;
    RBlock* b = &r->b[id]; b->flat = true; b->count = c; b->time = t; b->self = f; snprintf(b->name, sizeof b->name, "%s", name);
  }
  EXPECT(""); EXPECT("Flat Profile by Self Time"); EXPECT("-------------------------"); NEXT();
  last = UINT64_MAX;
  for (size_t i = 0; i < n; ++i) {
    NEXT(); char* s = l; char* e; double pc = strtod(s, &e); (void)pc; const char* q = e;
    if (e == s || !rep_num(&q, &v) || strncmp(q, "  ", 2)) return rep_bad(r, "bad numbers", l);
    if (!rep_name((char*)q + 2, name, sizeof name, &id) || id < 0 || (size_t)id >= n || r->b[id].selfs) return rep_bad(r, "bad or repeated block", l);
    r->b[id].selfs = true;
    if (strcmp(name, r->b[id].name) || v != r->b[id].self) return rep_bad(r, "sections disagree", l);
    if (v > last) return rep_bad(r, "not sorted by self time", l); last = v;
  }
  EXPECT(""); EXPECT("Call Graph"); EXPECT("----------"); NEXT();
  last = UINT64_MAX;
  while (true) {
    NEXT(); if (!l[0]) break;
    int nin = 0, nout = 0; RCall* in = NULL; RCall* out = NULL; long me = -1; uint64_t lt = 0, lo = UINT64_MAX;
    for (;; ) {
      if (!strcmp(l, "-------------------------------")) break;
      bool star = !strncmp(l, "** ", 3); size_t len = strlen(l); const char* s = l + 2; uint64_t c, t, f = 0;
      if (len < 10 || (!star && strncmp(l, "   ", 3)) || strcmp(l + len - 3, star ? " **" : "   ")) { free(in); free(out); return rep_bad(r, "not a call line", l); }
      l[len - 3] = 0;
      if (!rep_num(&s, &c) || !rep_num(&s, &t) || (star && !rep_num(&s, &f))) { free(in); free(out); return rep_bad(r, "bad numbers", l); }
      while (*s == ' ') s++;
      if (!rep_name((char*)s, name, sizeof name, &id) || id < 0 || (size_t)id >= n || strcmp(name, r->b[id].name)) { free(in); free(out); return rep_bad(r, "bad block", l); }
      if (star) {
        if (me >= 0 || r->b[id].graph || c != r->b[id].count || t != r->b[id].time || f != r->b[id].self || t > last) { free(in); free(out); return rep_bad(r, "a block of the call graph is wrong", l); }
        me = id; last = t; r->b[id].graph = true;
      } else if (me < 0) { in = realloc(in, sizeof(RCall) * (size_t)(nin + 1)); in[nin++] = (RCall){id, c, t}; if (t < lt) { free(in); free(out); return rep_bad(r, "callers are not sorted", l); } lt = t; }
      else { out = realloc(out, sizeof(RCall) * (size_t)(nout + 1)); out[nout++] = (RCall){id, c, t}; if (t > lo) { free(in); free(out); return rep_bad(r, "callees are not sorted", l); } lo = t; }
      if (!rep_line(&p, l, sizeof l)) { free(in); free(out); return rep_bad(r, "the report ends early", p); }
    }
    if (me < 0) { free(in); free(out); return rep_bad(r, "a call graph entry without its block", l); }
    r->b[me].in = in; r->b[me].nin = nin; r->b[me].out = out; r->b[me].nout = nout;
  }
  EXPECT("Block Locations"); EXPECT("---------------");
  for (size_t i = 0; i < n; ++i) {
    NEXT(); char* e = strstr(l, "X]: "); char* x; while (e && (x = strstr(e + 1, "X]: ")) && x < l + strlen(r->b[i].name) + 30) e = x;
    if (!e) return rep_bad(r, "bad location", l);
    snprintf(r->b[i].where, sizeof r->b[i].where, "%s", e + 4); e[2] = 0;
    if (!rep_name(l, name, sizeof name, &id) || id < 0 || (size_t)id >= n || r->b[id].loc || strcmp(name, r->b[id].name)) return rep_bad(r, "bad location", l);
    r->b[id].loc = true;
    if ((size_t)id != i) { char q[600]; snprintf(q, sizeof q, "%s", r->b[i].where); snprintf(r->b[id].where, sizeof q, "%s", q); }
  }
  EXPECT("");
  if (*p) return rep_bad(r, "text after the report", p);
  // Every call is listed once by its caller and once by the called block.
  for (size_t i = 0; i < n; ++i) {
    RBlock* b = &r->b[i]; 
    if (b->graph != (b->count > 0)) return rep_bad(r, "a block is missing from the call graph", b->name);
    for (int j = 0; j < b->nout; ++j) {
      RBlock* c = &r->b[b->out[j].id]; int hits = 0;
      for (int k = 0; k < c->nin; ++k) if (c->in[k].id == (long)i) hits += c->in[k].count == b->out[j].count && c->in[k].time == b->out[j].time ? 1 : 10;
      if (hits != 1) return rep_bad(r, "callers and callees disagree", c->name);
    }
    for (int j = 0; j < b->nin; ++j) {
      RBlock* c = &r->b[b->in[j].id]; int hits = 0;
      for (int k = 0; k < c->nout; ++k) if (c->out[k].id == (long)i) hits++;
      if (hits != 1) return rep_bad(r, "callers and callees disagree", c->name);
    }
  }
  return true;
  #undef NEXT
  #undef EXPECT
}

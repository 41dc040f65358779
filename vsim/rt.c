/* runtime appended to every generated simulator */
#include <stdlib.h>
typedef struct { u64 *v; int nbits; int sgn; } Port;
static Port ports[];
static inline u64 pget(int i) { return i < 0 ? 0 : *ports[i].v; }
static inline void pset(int i, u64 x) {
    if (i < 0) return;
    int n = ports[i].nbits;
    if (n < 64) {
        x &= (((u64)1) << n) - 1;
        if (ports[i].sgn && (x >> (n-1))) x |= ~((((u64)1) << n) - 1);
    }
    *ports[i].v = x;
}
enum { PLAY, REC, SRC, SINK, RDMEM, WRMEM };
typedef struct {
    i64 kind, dom;
    i64 np; i64 *p;
    u64 *a; i64 na;          /* rows */
    i64 *b; i64 nb;
    i64 *c; i64 nc;
    u64 *m; i64 nm;          /* memory words */
    u64 *o; i64 oc, on;      /* output rows: capacity, count */
    i64 x0, x1;              /* parameters */
    /* state */
    i64 pos, wait, tick, act, viol, violt;
    u64 *prev; i64 prevv;
    u64 *q; i64 qc, qh, qt;  /* queue of (addr, due) */
} Bfm;

static inline u64 *orow(Bfm *f, i64 w) {
    if (f->on >= f->oc) { f->viol |= 1LL<<40; return 0; }
    return f->o + (f->on++)*w;
}

static void drive(Bfm *f) {
    i64 i;
    switch (f->kind) {
    case PLAY: {
        if (!f->na) break;
        i64 r = f->pos;
        if (r >= f->na) r = f->x0 ? r % f->na : f->na - 1;
        u64 *row = f->a + r*f->np;
        for (i = 0; i < f->np; i++) pset(f->p[i], row[i]);
        break; }
    case SRC: {
        f->act = f->pos < f->na && f->wait <= 0;
        i64 w = f->np - 2;
        pset(f->p[0], f->act);
        if (f->act) { u64 *row = f->a + f->pos*w; for (i = 0; i < w; i++) pset(f->p[2+i], row[i]); }
        else if (f->nc) for (i = 0; i < w; i++) pset(f->p[2+i], (u64)f->c[(f->tick*w + i) % f->nc]);
        break; }
    case SINK: {
        /* 0: not ready, 1: ready, 2: ready if the word was already waiting */
        i64 x = f->nb ? f->b[f->tick % f->nb] : 1;
        pset(f->p[1], x == 2 ? f->prevv : x);
        break; }
    case RDMEM: {
        pset(f->p[1], f->nb ? f->b[f->tick % f->nb] : 1);
        f->act = f->qh != f->qt && (i64)f->q[2*f->qh+1] <= f->tick;
        pset(f->p[4], f->act);
        i64 w = f->np - 6;
        if (f->act) { u64 ad = f->q[2*f->qh]; if (f->nm) for (i = 0; i < w; i++) pset(f->p[6+i], f->m[(ad % f->nm)*w + i]); }
        else for (i = 0; i < w; i++) pset(f->p[6+i], f->x0 ? 0x5a5a5a5a5a5a5a5aULL : 0);
        break; }
    case WRMEM: {
        pset(f->p[1], f->nb ? f->b[f->tick % f->nb] : 1);
        f->act = f->qh != f->qt && (i64)f->q[2*f->qh+1] <= f->tick;
        pset(f->p[5], f->act);
        break; }
    }
}

static void tick(Bfm *f, i64 t) {
    i64 i;
    switch (f->kind) {
    case PLAY: f->pos++; break;
    case REC: {
        if (f->x0 >= 0 && !pget(f->x0)) break;
        u64 *r = orow(f, f->np + 1); if (!r) break;
        r[0] = t;
        for (i = 0; i < f->np; i++) r[1+i] = pget(f->p[i]);
        break; }
    case SRC:
        if (f->act) {
            if (pget(f->p[1])) {
                u64 *r = orow(f, 1); if (r) r[0] = t;
                f->pos++; f->wait = f->nb ? f->b[f->pos % f->nb] : 0;
            }
        } else if (f->wait > 0) f->wait--;
        f->tick++;
        break;
    case SINK: {
        i64 w = f->np - 2;
        int v = pget(f->p[0]) != 0, rd = pget(f->p[1]) != 0;
        if (f->prevv) {
            int bad = !v;
            for (i = 0; i < w && !bad; i++) bad = pget(f->p[2+i]) != f->prev[i];
            if (bad) { if (!f->viol) f->violt = t; f->viol++; }
        }
        f->prevv = v && !rd;
        for (i = 0; i < w; i++) f->prev[i] = pget(f->p[2+i]);
        if (v && rd) {
            u64 *r = orow(f, w + 1);
            if (r) { r[0] = t; for (i = 0; i < w; i++) r[1+i] = pget(f->p[2+i]); }
        }
        f->tick++;
        break; }
    case RDMEM: {
        if (f->act) {
            if (f->p[5] >= 0 && !pget(f->p[5])) { if (!f->viol) f->violt = t; f->viol++; if (!f->x1) f->qh = (f->qh + 1) % f->qc; }
            else f->qh = (f->qh + 1) % f->qc;
        }
        if (pget(f->p[0]) && pget(f->p[1])) {
            u64 ad = pget(f->p[3]);
            i64 lat = f->nc ? f->c[f->on % f->nc] : 1;
            u64 *r = orow(f, 3); if (r) { r[0] = t; r[1] = ad; r[2] = pget(f->p[2]); }
            i64 due = f->tick + (lat < 1 ? 1 : lat);
            f->q[2*f->qt] = ad; f->q[2*f->qt+1] = due;
            f->qt = (f->qt + 1) % f->qc;
            if (f->qt == f->qh) { f->viol |= 1LL<<41; }
        }
        f->tick++;
        break; }
    case WRMEM: {
        i64 w = f->np - 7;
        if (f->act && pget(f->p[4])) {
            u64 *r = orow(f, w + 4);
            if (r) {
                r[0] = t; r[1] = f->q[2*f->qh]; r[2] = pget(f->p[6]); r[3] = f->q[2*f->qh+1];
                for (i = 0; i < w; i++) r[4+i] = pget(f->p[7+i]);
            }
            f->qh = (f->qh + 1) % f->qc;
        } else if (f->act) { if (!f->viol) f->violt = t; f->viol++; }
        if (pget(f->p[0]) && pget(f->p[1])) {
            i64 lat = f->nc ? f->c[f->pos % f->nc] : 1;
            f->pos++;
            f->q[2*f->qt] = pget(f->p[3]) | (pget(f->p[2]) ? 0 : (1ULL<<63));
            f->q[2*f->qt+1] = f->tick + (lat < 1 ? 1 : lat);
            f->qt = (f->qt + 1) % f->qc;
            if (f->qt == f->qh) { f->viol |= 1LL<<41; }
        }
        f->tick++;
        break; }
    }
}

void sim_reset(void) { reset_state(); }

/* mask[t]: bit d set = domain d has a rising edge at step t */
i64 sim_run(i64 nsteps, const unsigned *mask, Bfm *f, i64 nf,
            const i64 *tin, i64 ntin, u64 *trace) {
    i64 t, i;
    for (t = 0; t < nsteps; t++) {
        unsigned mk = mask[t];
        for (i = 0; i < nf; i++) if (f[i].kind != REC) drive(&f[i]);
        if (trace) for (i = 0; i < ntin; i++) trace[t*ntin + i] = pget(tin[i]);
        eval_comb();
        for (i = 0; i < nf; i++) if (f[i].dom < 0 || (mk >> f[i].dom & 1)) tick(&f[i], t);
        sync_all(mk);
    }
    return G.err;
}

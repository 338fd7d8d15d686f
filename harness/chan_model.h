/* reference model of a channel: a bounded FIFO with waiting senders and receivers */
#pragma once
#include <string.h>
#include <stdint.h>
enum { OP_SEND, OP_RECV, OP_ALL, OP_CLOSE_SEND, OP_CLOSE_RECV, OP_NKINDS };
enum { O_PENDING, O_OK, O_REJ };
#define MMAX 40
typedef struct { uint8_t st, n, item[MMAX]; } MOut;      /* per operation */
typedef struct {
  int cap, can_send, can_recv;
  int nq, ns, nr;
  uint8_t q[MMAX], s[MMAX], sop[MMAX], r[MMAX];
} MChan;
static void m_init (MChan *m, int cap) { memset (m, 0, sizeof *m); m->cap = cap ? cap : 1 << 30; m->can_send = m->can_recv = 1; }
static int m_shift (uint8_t *a, int *n) { int x = a[0]; memmove (a, a + 1, --*n); return x; }
static void m_advance (MChan *m, MOut *o)
{
  while (m->ns && m->nq < m->cap)
    {
      int n = m->ns; m->q[m->nq++] = m_shift (m->s, &n);
      o[m_shift (m->sop, &m->ns)].st = O_OK;
    }
}
static void m_match (MChan *m, MOut *o)
{
  while (m->nr && m->nq)
    {
      MOut *x = &o[m_shift (m->r, &m->nr)];
      x->st = O_OK; x->n = 1; x->item[0] = m_shift (m->q, &m->nq);
      m_advance (m, o);
    }
}
/* executes operation number op of kind k (item for sends); o: outcomes of all operations */
static void m_step (MChan *m, MOut *o, int op, int k, int item)
{
  memset (&o[op], 0, sizeof o[op]);
  switch (k)
    {
    case OP_SEND:
      if (!m->can_send || !m->can_recv) { o[op].st = O_REJ; break; }
      m->s[m->ns] = item; m->sop[m->ns++] = op;
      m_advance (m, o); m_match (m, o);
      break;
    case OP_ALL:
      if (m->can_recv && m->nq)
        {
          o[op].st = O_OK; o[op].n = m->nq; memcpy (o[op].item, m->q, m->nq); m->nq = 0;
          m_advance (m, o);
          break;
        }
      /* fall through: wait for the next item */
    case OP_RECV:
      if (!m->can_recv || (!m->can_send && m->nq + m->ns <= m->nr)) { o[op].st = O_REJ; break; }
      m->r[m->nr++] = op;
      m_match (m, o);
      break;
    case OP_CLOSE_SEND:
      m->can_send = 0; o[op].st = O_OK;
      while (m->nr > m->nq + m->ns) o[m->r[--m->nr]].st = O_REJ;
      break;
    case OP_CLOSE_RECV:
      m->can_recv = 0; o[op].st = O_OK;
      while (m->nr) o[m->r[--m->nr]].st = O_REJ;
      for (int i = 0; i < m->ns; i++) o[m->sop[i]].st = O_REJ;
      m->ns = m->nq = 0;
      break;
    }
}
static uint64_t m_hash (const MChan *m)
{
  uint64_t h = mc_mix (m->can_send * 2 + m->can_recv, m->nq * 10000 + m->ns * 100 + m->nr);
  return mc_mix (h, m->cap);
}

/* the inline functions of the work stealing queue, instrumented like the rest of libdex */
#include "config.h"
#include "dex-work-stealing-queue-private.h"
void wsq_push (DexWorkStealingQueue *q, DexWorkItem w) { dex_work_stealing_queue_push (q, w); }
gboolean wsq_pop (DexWorkStealingQueue *q, DexWorkItem *w) { DexWorkItem l; gboolean r = dex_work_stealing_queue_pop (q, &l); if (r) *w = l; return r; }
gboolean wsq_steal (DexWorkStealingQueue *q, DexWorkItem *w) { DexWorkItem l; gboolean r = dex_work_stealing_queue_steal (q, &l); if (r) *w = l; return r; }
gboolean wsq_empty (DexWorkStealingQueue *q) { return dex_work_stealing_queue_empty (q); }
gsize wsq_size (DexWorkStealingQueue *q) { return dex_work_stealing_queue_size (q); }

// instantiates the inline members of thread/BlockAllocator.h (nothing else)
#include "thread/BlockAllocator.h"
void *qmv_use_allocate(BlockAllocator &a) { return a.allocate(); }
void qmv_use_deallocate(BlockAllocator &a, void *p) { a.deallocate(p); }

// Calls the public operations of the repository's tree pool; contains no logic of its own.
#include <cstddef>
#include <cstdint>
#include <new>
#include <qrl/xmssPool.h>

extern "C" void v_pool_new(void *mem, const TSEED *base, uint8_t height, size_t start, size_t size) { new (mem) XmssPool(*base, height, start, size); }
extern "C" size_t v_pool_index(XmssPool *p) { return p->getCurrentIndex(); }
extern "C" bool v_pool_available(XmssPool *p) { return p->isAvailable(); }
extern "C" void v_pool_next(XmssPool *p, void *out) { new (out) std::shared_ptr<XmssFast>(p->getNextTree()); }

/* counters of the flavour `count` */
#ifndef COST_H
#define COST_H
#include <cstdint>
namespace cost {
extern bool counting;
extern uint64_t work, allocs;
}
#endif

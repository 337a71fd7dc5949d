// absint: --sums --consts
// The same with items of which a page holds only one.
struct vf_big { unsigned long v; unsigned char rest[2400]; };
#define VF_ONE
#define VF_ITEM vf_big
#define VF_MAKE(x) vf_big { x, { 0 } }
#define VF_VALUE(x) ((x).v)
#include "vmem_container.cpp"

// the packed state of a tree cell
#include "hydro.h"
#include "testkern.h"
using cell = flecsi::topology::hcell<gdimension, key_type, node, body>;
static constexpr int NC = 1 << gdimension;
// everything a cell tells about itself (is_node and the like only of a cell that is one)
static inline void obs(cell & c, uint64_t * o) {
  uint64_t ch = 0;
  for(int i = 0; i < NC; ++i)
    ch |= (uint64_t)c.get_child(i) << i;
  o[0] = ch;
  o[1] = c.nchildren();
  o[2] = c.has_child();
  o[3] = c.is_shared();
  o[4] = c.requested();
  o[5] = c.nchildren_to_receive();
  o[6] = c.owner();
  o[7] = (int64_t)c.node_idx();
  o[8] = (int64_t)c.entity_idx();
  o[9] = c.key().value();
  o[10] = c.is_unset();
  if(!c.is_unset()) {
    o[11] = c.is_node();
    o[12] = c.is_entity();
    o[13] = c.is_empty_node();
  }
  else
    o[11] = o[12] = o[13] = 2;
}
// the cell with given answers, made by the operations in one fixed order; what every operation leaves is compared with it
struct S {
  uint64_t key, mask, shared, requested, recv, owner, node, entity;
};
static inline cell make(const S & s) {
  cell c{key_type(s.key)};
  for(int i = 0; i < NC; ++i)
    if(s.mask >> i & 1)
      c.add_child(i);
  if(s.shared)
    c.set_shared();
  if(s.requested)
    c.set_requested();
  c.set_nchildren_to_receive((int)s.recv);
  c.set_owner((int)s.owner);
  if((int)s.entity == -1)
    c.set_node_idx((int)s.node);
  else
    c.set_entity_idx((int)s.entity);
  return c;
}
#define OP(N, CALL, NEW) \
  X void N(const S & s, uint64_t k, uint64_t * a, cell & x, cell & y) { \
    cell c = make(s); \
    CALL; \
    obs(c, a); \
    x = c; \
    S n = s; \
    NEW; \
    y = make(n); \
  }
OP(w_nothing, (void)k, (void)k)
OP(w_add_child, c.add_child((int)k), n.mask |= (uint64_t)1 << k)
OP(w_set_shared, c.set_shared(), n.shared = 1)
OP(w_set_requested, c.set_requested(), n.requested = 1)
OP(w_unset_requested, c.unset_requested(), n.requested = 0)
OP(w_set_nchildren, c.set_nchildren_to_receive((int)k), n.recv = k)
OP(w_set_owner, c.set_owner((int)k), n.owner = k)
OP(w_set_node, c.set_node_idx((int)k), n.node = k)
OP(w_set_entity, c.set_entity_idx((int)k), n.entity = k)
X void w_new(uint64_t v, uint64_t k, uint64_t * a, cell & x, cell & y) {
  cell c{key_type(v)};
  obs(c, a);
  x = c;
  y = make(S{v, 0, 0, 0, 0, (uint64_t)(int64_t)c.owner(), ~0ull, ~0ull});
}
X void w_new_entity(uint64_t v, uint64_t k, uint64_t * a, cell & x, cell & y) {
  cell c(key_type(v), (int)k);
  obs(c, a);
  x = c;
  y = make(S{v, 0, 0, 0, 0, (uint64_t)(int64_t)c.owner(), ~0ull, k});
}
X uint64_t w_mine(uint64_t v, uint64_t k) {
  cell c{key_type(v)};
  c.set_owner((int)k);
  return c.iam_owner();
}
X uint64_t w_new_mine(uint64_t v) {
  cell c{key_type(v)};
  return c.iam_owner();
}
X uint64_t w_new_entity_mine(uint64_t v, uint64_t k) {
  cell c(key_type(v), (int)k);
  return c.iam_owner();
}

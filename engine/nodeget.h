// node accessors
#pragma once
#define N(n, e) X double n_##n(node & c) { return e; }
#define NP(n, e) X void n_##n(node & c, double * o) { point_t p = e; for(size_t i = 0; i < gdimension; ++i) o[i] = p[i]; }
N(mass, c.mass()) N(radius, c.radius()) N(lap, c.lap()) N(pc, c.pc())
NP(pos, c.coordinates()) NP(bmin, c.bmin()) NP(bmax, c.bmax()) NP(fc, c.fc())
X int n_sub(node & c) { return c.sub_entities(); }
X uint64_t n_key(node & c) { return c.key().value(); }
X bool n_affected(node & c) { return c.affected(); }

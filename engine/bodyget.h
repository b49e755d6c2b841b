// field accessors, executed symbolically to locate the particle's fields
#pragma once
#define G(n, e) X double g_##n(body & b) { return e; }
#define GP(n, e) X void g_##n(body & b, double * o) { point_t p = e; for(size_t i = 0; i < gdimension; ++i) o[i] = p[i]; }
G(mass, b.mass()) G(radius, b.radius()) G(density, b.getDensity()) G(pressure, b.getPressure())
G(soundspeed, b.getSoundspeed()) G(eint, b.getInternalenergy()) G(etot, b.getTotalenergy()) G(dudt, b.getDudt())
G(dedt, b.getDedt()) G(dt, b.getDt()) G(alpha, b.getAlpha()) G(divv, b.getDivergenceV()) G(ddivvdt, b.getDdivvdt())
G(vsig, b.getSignalspeed()) G(gpot, b.getGPotential()) G(adiabatic, b.getAdiabatic()) G(dadt, b.getDadt())
G(entropy, b.getEntropy()) G(pmin, b.getPressuremin()) G(temperature, b.getTemperature()) G(ye, b.getElectronfraction())
G(xi, b.getXi()) G(trigger, b.getTrigger()) G(tracess, b.getTraceSS()) G(gradv, b.getGradV())
GP(pos, b.coordinates()) GP(vel, b.getVelocity()) GP(v12, b.getVelocityhalf()) GP(acc, b.getAcceleration()) GP(gacc, b.getGAcceleration())
X uint64_t g_id(body & b) { return b.id(); }
X int g_type(body & b) { return b.getType(); }
X int g_state(body & b) { return b.state(); }
X uint64_t g_neighbors(body & b) { return b.getNeighbors(); }
X uint64_t g_key(body & b) { return b.key().value(); }

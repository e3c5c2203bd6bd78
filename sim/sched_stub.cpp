#include "sim.hpp"
int sched_current(){ return -1; } bool sched_exit(Out){ return false; }
void sched_run(const std::vector<std::function<void()>>&,const SchedCfg&,SchedResult&){ violate("internal","no scheduler in this build"); }

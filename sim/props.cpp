#include "sim.hpp"
#ifndef SIM_SCHED
extern const Prop PC01,PC02,PC03,PC04,PC05,PC06,PC17,PC08,PC09,PC10,PC12,PC07,PC15,PC16,PC13,PC14,PC18,PC19,PC20;
const Prop PROPS[]={PC01,PC02,PC03,PC04,PC05,PC06,PC17,PC08,PC09,PC10,PC12,PC07,PC15,PC16,PC13,PC14,PC18,PC19,PC20};
#else
extern const Prop PC11;
const Prop PROPS[]={PC11};
#endif
const int NPROPS=sizeof PROPS/sizeof*PROPS;

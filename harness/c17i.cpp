// Predictors the models are built of: one step from an arbitrary legal estimate.
#include <vector>
#include <algorithm>
#include <iostream>
#include <boost/static_assert.hpp>
#include "sym.h"
#define private public
#include "probmodels/BitPredictors.hpp"
#undef private
using namespace bwtc;
namespace {
template<class P> void step(uint32 lo,uint32 hi){
  P a; uint32 init=a.probabilityOfOne(); sym_assert(init>=lo&&init<=hi,"initial estimate lies in the invariant range");
  uint32 q=(uint32)sym_u("q",16); sym_assume(q>=lo&&q<=hi); a.m_probabilityOfOne=(Probability)q; bool bit=sym_u("bit",1); a.update(bit); uint32 r=a.probabilityOfOne();
  sym_assert(r>=lo&&r<=hi,"estimate stays in the invariant range"); a.resetModel(); sym_assert(a.probabilityOfOne()==init,"reset restores the initial estimate");
}
}
extern "C" void h_predictors(){
  switch(sym_choice("which",7)){
    case 0: step<UnbiasedPredictor<2,4,2400> >(0,kProbabilityScale); break; case 1: step<UnbiasedPredictor<2,5,2300> >(0,kProbabilityScale); break;
    case 2: step<UnbiasedPredictor<2,5,2200> >(0,kProbabilityScale); break; case 3: step<UnbiasedPredictor<2,5,2100> >(0,kProbabilityScale); break;
    case 4: step<UnbiasedPredictor<100,5,kHalfProbability> >(0,kProbabilityScale); break; case 5: step<UnbiasedPredictor<2,5,kHalfProbability> >(0,kProbabilityScale); break;
    default: step<EvenIntervalPredictor<4> >(0,kProbabilityScale); break; }
  sym_reach("end");
}

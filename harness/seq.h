// enumeration of all legal operation sequences of a subject, for any harness
#pragma once
#include "subject.h"
struct Step{int op;size_t n;};
struct NulEnv{ static uint8_t*buf(){static uint8_t b[30000];return b;} const uint8_t*in(int,size_t,int){static const B m=ref::pattern(30000,77);return m.data();} uint8_t*out(size_t){return buf();} void wrote(uint8_t*,size_t,size_t,size_t){} };
// draws a sequence of exactly depth operations (fewer if nothing more is legal); the first one initializes unless raw
template<class S> static std::vector<Step> draw(mc::Ctx&C,int depth,const size_t*sz,int ns,int*phase=nullptr){ std::vector<Step> q; static NulEnv e; if(depth>0)q.push_back({S::INIT,S::sized(S::INIT)?sz[ns>1?C.choose(ns):0]:0}); int ph=depth>0?READY:RAW; static typename S::T scratch; for(int i=1;i<depth;i++){ std::vector<Step> o; for(int p=0;p<S::OPS;p++)if(S::legal(ph,p)&&!(p==S::INIT&&i==1)){ if(S::sized(p))for(int k=0;k<ns;k++)o.push_back({p,sz[k]}); else o.push_back({p,0}); } if(o.empty())break; q.push_back(o[C.choose(int(o.size()))]); C.tr(); int p=RAW; for(auto&x:q)p=S::run(scratch,x.op,x.n,e,p); ph=p; } if(phase)*phase=ph; return q; }
template<class S> static std::string show(const std::vector<Step>&q){ std::string w; for(auto&x:q){w+=(w.empty()?"":", ")+std::string(S::op(x.op)); if(S::sized(x.op))w+="("+std::to_string(x.n)+")";} return w.empty()?"(nothing)":w; }

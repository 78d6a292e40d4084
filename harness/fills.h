// byte strings with something particular in them: runs of one value, and every pair of bytes set
#pragma once
#include "all.h"
template<class F> static void fills(size_t n,const B&bg,int part,int parts,F f){
  for(size_t i=part;i<n;i+=parts)for(size_t j=i+1;j<=n;j++)for(int v:{0,0x7f,0x80,0xff}){ B b=bg; for(size_t k=i;k<j;k++)b[k]=uint8_t(v); f(b,int(i),int(j),v); }
  const uint8_t vs[]={0,1,0x7f,0x80,0xff}; for(int g=0;g<(mc::thorough()?4:3);g++)for(size_t i=part;i<n;i+=parts)for(size_t j=i+1;j<n;j++)for(int v:vs)for(int w:vs){ B b=g==0?bg:B(n,g==1?0:g==2?0xff:0x80); b[i]=uint8_t(v); b[j]=uint8_t(w); f(b,int(i),int(j),v*256+w); } }

// an address range of more than 2^32 bytes that shows one period of 16 MiB again and again
#pragma once
#include <sys/mman.h>
#include <cstdlib>
namespace period { inline const size_t PER=1<<24;
inline uint8_t*make(size_t bytes,bool writable){ int fd=memfd_create("per",0); if(ftruncate(fd,PER))abort(); size_t n=bytes/PER+1; uint8_t*p=(uint8_t*)mmap(nullptr,n*PER,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(p==MAP_FAILED)abort(); for(size_t i=0;i<n;i++)if(mmap(p+i*PER,PER,PROT_READ|(i==0||writable?PROT_WRITE:0),MAP_SHARED|MAP_FIXED,fd,0)==MAP_FAILED)abort(); return p; } }

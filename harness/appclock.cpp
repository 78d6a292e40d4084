// the virtual clock behind std::chrono::steady_clock of the application
#include "app.h"
#include <iostream>
namespace std{namespace chrono{inline namespace _V2{
steady_clock::time_point steady_clock::now() noexcept { auto&c=app::clk(); long k=c.readings++; if(k&1)c.t+=c.n?c.d[(k/2)%c.n]:0; else c.t+=77; if(c.hook)c.hook(int(k)); return time_point(duration(c.t)); }
}}}
void app_flush(){ std::cout.flush(); std::cerr.flush(); }

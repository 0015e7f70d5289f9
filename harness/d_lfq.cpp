#include <cy_core.h>
#include "d_util.h"
#include <thread>
using namespace cyclone;
using namespace vs;
// producers and consumers run short scripts against one queue; every call is logged at entry and return
// an element whose copy takes a while: another thread may run before, in the middle of and after it
struct Slow { uint32_t a,b; Slow(uint32_t v=0):a(v),b(v){} Slow(const Slow& o):a(o.a),b(o.b){} Slow& operator=(const Slow& o){ point(); a=o.a; if(full) point(); b=o.b; if(full) point(); return *this; } static bool full; };
bool Slow::full=false;
static uint32_t val(uint32_t v){ return v; }
static uint32_t val(const Slow& s){ return s.a==s.b?s.a:0xdead; }
template<class T,int Q> static void lfq(){
    typedef LockFreeQueue<T,Q> Queue; Slow::full=param("full",0);
    static Queue* q; q=new Queue();
    int np=param("np",-1), nc=param("nc",-1); if(np<0) np=rnd_int(1,3); if(nc<0) nc=rnd_int(1,2);
    int ops=param("ops",2); 
    kopt.weak_cas_fail=param("weak",0);
    set_cfg("{\"q\":"+std::to_string(Q)+"}");
    static int next; next=1;
    auto push=[](){ int v=next++; Ev("inv").s_("op","push").i("v",v); bool r=q->push(T((uint32_t)v)); Ev("res").b("r",r).i("v",v); };
    auto pop=[](){ T v(0); Ev("inv").s_("op","pop").i("v",0); bool r=q->pop(v); Ev("res").b("r",r).i("v",r?(int)val(v):0); };
    // sequential warm-up moves the indices around the ring and leaves some elements in the queue
    int warm=param("warm",-1); if(warm<0) warm=rnd_int(0,2*Q); int fill=param("fill",-1); if(fill<0) fill=rnd_int(0,Q-1);
    for(int i=0;i<warm;i++){ push(); pop(); }
    for(int i=0;i<fill;i++) push();
    std::vector<std::thread*> ts; 
    for(int i=0;i<np+nc;i++){
        int script=0, n=param("mixed",0)?rnd_int(1,ops):ops; if(param("mixed",0)) script=(int)(rnd()&0xffff); else script= i<np?0xffff:0;
        ts.push_back(new std::thread([=]{ for(int k=0;k<n;k++){ if(script>>k&1) push(); else pop(); } }));
    }
    for(auto t: ts){ t->join(); delete t; }
    Ev("size").i("n",q->size());
    // drain: everything that was accepted must come out
    for(int i=0;i<param("tail",1);i++) push();
    Ev("size").i("n",q->size());
    for(int i=0;i<Q+2;i++){ T v(0); Ev("inv").s_("op","pop").i("v",0); bool r=q->pop(v); Ev("res").b("r",r).i("v",r?(int)val(v):0); if(!r) break; }
    Ev("size").i("n",q->size());
    Ev("fin");
    delete q;
}
VS_SCENARIO(lfq2){ lfq<uint32_t,2>(); }
VS_SCENARIO(lfq4){ lfq<uint32_t,4>(); }
VS_SCENARIO(lfq8){ lfq<uint32_t,8>(); }
VS_SCENARIO(lfs2){ lfq<Slow,2>(); }
VS_SCENARIO(lfs4){ lfq<Slow,4>(); }
int main(int c,char** v){ return run_main(c,v); }

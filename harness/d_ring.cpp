#include <cy_core.h>
#include <cy_crypt.h>
#include "d_util.h"
#include <unistd.h>
#include <sys/socket.h>
#include <fcntl.h>
#include <signal.h>
using namespace cyclone;
using namespace vs;

static size_t pick_len(size_t sz,size_t fr,bool big){
    switch(rnd_int(0,12)){
    case 0: return 0; case 1: return 1; case 2: return sz; case 3: return sz+1; case 4: return sz>0?sz-1:0;
    case 5: return fr; case 6: return fr+1; case 7: return fr>0?fr-1:0; case 8: return fr+sz+1;
    case 9: return big?rnd_int(0,3000):rnd_int(0,30); case 10: return rnd_int(0,(int)sz+3);
    default: return rnd_int(0,big?700:9); }
}
static int next_base=1;
static std::string st(RingBuf& b){ char t[160]; snprintf(t,sizeof t,"[%zu,%zu,%zu,%d,%d]",b.size(),b.get_free_size(),b.capacity(),(int)b.empty(),(int)b.full()); return t; }
static bool clip(size_t n){ return n<=200000; }

VS_SCENARIO(ring){
    // two ring buffers, each with a mock descriptor pair; op mix selected by the workload seed
    int profile=param("profile",-1); if(profile<0) profile=rnd_int(0,4);
    bool big= profile>=3; bool io=param("io",1); std::string mask=param_s("mask","");
    size_t caps[]={0,1,2,3,4,5,7,8,15,16,31,63,64,100};
    size_t c0= big? (rnd_int(0,2)?(size_t)RingBuf::kDefaultCapacity:(size_t)rnd_int(200,2100)) : caps[rnd_int(0,13)], c1= big?(size_t)rnd_int(1,1500):caps[rnd_int(0,13)];
    if(!big&&c0==0) c0=1;
    next_base=rnd_int(0,250);
    RingBuf* bufs[2]={ rnd_int(0,3)==0&&big?new RingBuf():new RingBuf(c0), new RingBuf(c1)};
    char cf[200]; snprintf(cf,sizeof cf,"{\"caps\":[%zu,%zu],\"once\":%s}",bufs[0]->capacity(),bufs[1]->capacity(),
#ifdef CY_HAVE_READWRITE_V
        "true"
#else
        "false"   // one call may read more than once
#endif
        ); set_cfg(cf);
    int sv[2][2]; { EnvScope e; for(int i=0;i<2;i++){ kopt.sock_rxcap=rnd_int(0,2)?200000:rnd_int(1,40); socketpair(AF_INET,SOCK_STREAM|SOCK_NONBLOCK,0,sv[i]); } }
    kopt.short_io=param("short",1); kopt.spurious_eagain=param("short",1);
    bool closed[2]={false,false};
    size_t lens[2]={0,0}; (void)lens;
    int nops=param("ops",40);
    for(int k=0;k<nops;k++){
        int w=rnd_int(0,3)==0?1:0; RingBuf& b=*bufs[w]; size_t sz=b.size(), fr=b.get_free_size();
        int op=rnd_int(0,io?19:13);
        { 
          if(mask=="c01"){ static const int t[]={0,0,0,4,4,6,7,7,12,13,0,4,6,11}; op=t[rnd_int(0,13)]; }
          else if(mask=="c02"){ static const int t[]={0,0,0,4,6,7,8,8,8,9,9,9,10,10,11,11,12}; op=t[rnd_int(0,16)]; }
          else if(mask=="c03"){ static const int t[]={0,0,4,6,14,14,14,16,16,16,18,18,18,19,19,19,12,11}; op=t[rnd_int(0,17)]; } }
        switch(op){
        case 0: case 1: case 2: case 3: { // append
            size_t n=pick_len(sz,fr,big); if(sz+n>150000) n=10; int base=next_base; next_base=(next_base+(int)n+37)%251;
            std::string d=pattern(base,n); b.memcpy_into(d.data(),n);
            Ev("into").i("b",w).i("base",base).i("n",n).raw("st",st(b)); break; }
        case 4: case 5: { // copy out
            size_t n=pick_len(sz,fr,big); std::string o(n+16,(char)253); size_t r=b.memcpy_out(&o[0],n);
            bool guard=true; for(size_t i=n;i<n+16;i++) if((uint8_t)o[i]!=253) guard=false;
            Ev("out").i("b",w).i("n",n).i("r",r).raw("d",runs((uint8_t*)o.data(),std::min(r,n))).b("g",guard).raw("st",st(b)); break; }
        case 6: { size_t n=rnd_int(0,4)?pick_len(sz,fr,big):(rnd_int(0,1)?~(size_t)0:(size_t)1<<40); size_t r=b.discard(n); Ev("discard").i("b",w).i("n",clip(n)?(long long)n:1000000000).i("r",r).raw("st",st(b)); break; }
        case 7: { RingBuf& d=*bufs[1-w]; if(d.size()+sz>150000) break; size_t n=rnd_int(0,3)?pick_len(sz,d.get_free_size(),big):sz; size_t r=b.moveto(d,n); Ev("move").i("b",w).i("n",n).i("r",r).raw("st",st(b)).raw("st2",st(d)); break; }
        case 8: { // peek
            size_t off=rnd_int(0,5)?(size_t)rnd_int(0,(int)sz+2):(rnd_int(0,1)?~(size_t)0:sz); size_t n= pick_len(sz,fr,big); int huge=rnd_int(0,9);
            size_t room=std::max(n,sz)+16; std::string o(room,(char)253); size_t cnt= huge==0?~(size_t)0: huge==1?~(size_t)0-off: huge==2?~(size_t)0-off+1: n; if(huge<=2&&!param("huge",1)) cnt=n;
            size_t r=b.peek(off,&o[0],cnt);
            size_t upto=clip(cnt)?cnt:sz; bool guard=true; for(size_t i=upto;i<room;i++) if((uint8_t)o[i]!=253) guard=false;
            Ev("peek").i("b",w).i("off",clip(off)?(long long)off:1000000000).i("n",clip(cnt)?(long long)cnt:1000000000).i("r",clip(r)?(long long)r:1000000000).raw("d",runs((uint8_t*)o.data(),std::min(r,room))).b("g",guard).raw("st",st(b)); break; }
        case 9: { // search
            size_t off=rnd_int(0,6)?(size_t)rnd_int(0,(int)std::min<size_t>(sz,6)+(rnd_int(0,2)?0:(int)sz)):~(size_t)0; int v;
            if(sz>0&&rnd_int(0,3)){ std::string o(sz,0); b.peek(0,&o[0],sz); size_t p= rnd_int(0,3)==0?0: rnd_int(0,2)==0&&off<sz?off: rnd_int(0,(int)sz-1); v=(uint8_t)o[p]; } else v=rnd_int(0,255);
            ssize_t r=b.search(off,(uint8_t)v); Ev("search").i("b",w).i("off",clip(off)?(long long)off:1000000000).i("v",v).i("r",r).raw("st",st(b)); break; }
        case 10: { // checksum
            if(big&&rnd_int(0,3)) break;
            size_t off=rnd_int(0,5)?(size_t)rnd_int(0,(int)sz+1):~(size_t)0; int h=rnd_int(0,7); size_t n= h==0?~(size_t)0: h==1?~(size_t)0-off+1: h<5&&off<=sz?(size_t)rnd_int(0,(int)(sz-off)):h==5&&off<=sz?sz-off:pick_len(sz,fr,big); if(h<=1&&!param("huge",1)) n=0;
            uint32_t r=b.checksum(off,n); Ev("sum").i("b",w).i("off",clip(off)?(long long)off:1000000000).i("n",clip(n)?(long long)n:1000000000).i("hi",r>>16).i("lo",r&0xffff).raw("st",st(b)); break; }
        case 11: { uint8_t* p=b.normalize(); size_t n=b.size(); Ev("norm").i("b",w).raw("d",runs(p,n)).raw("st",st(b)); break; }
        case 12: { size_t n; switch(rnd_int(0,4)){ case 0: n=b.capacity(); break; case 1: n=b.capacity()+1; break; case 2: { size_t q=2; while(q<=b.capacity()) q*=2; n=q-rnd_int(0,1); break; } case 3: n=rnd_int(0,big?5000:70); break; default: n=sz+rnd_int(0,5); } if(n>150000) n=3; b.resize(n); Ev("resize").i("b",w).i("n",n).raw("st",st(b)); break; }
        case 13: if(rnd_int(0,3)==0){ b.reset(); Ev("reset").i("b",w).raw("st",st(b)); } break;
        case 14: case 15: { // environment writes to the descriptor
            if(closed[w]) break;
            size_t n= big? (rnd_int(0,3)==0?rnd_int(60000,75000):rnd_int(1,3000)) : rnd_int(1,30); int base=next_base; next_base=(next_base+(int)n+37)%251; std::string d=pattern(base,n);
            ssize_t r; { EnvScope e; r=::write(sv[w][1],d.data(),n); } if(r<0) r=0; Ev("kwrite").i("b",w).i("base",base).i("n",r); break; }
        case 16: case 17: { // fill from descriptor
            bool extra=rnd_int(0,2)!=0; ssize_t r=b.read_socket(sv[w][0],extra); int er=r<0?errno:0; Ev("rsock").i("b",w).b("extra",extra).i("r",r).s_("err",r<0?(er==EAGAIN?"again":"error"):"").i("left",sock_unread(sv[w][0])).raw("st",st(b)); break; }
        case 18: { // drain to descriptor
            if(b.empty()) break; ssize_t r=b.write_socket(sv[w][0]); int er=r<0?errno:0; Ev("wsock").i("b",w).i("r",r).s_("err",r<0?(er==EAGAIN?"again":"error"):"").raw("st",st(b)); break; }
        case 19: { // environment reads what was drained, or closes / resets
            int x=rnd_int(0,9);
            if(x<8||closed[w]){ size_t n=rnd_int(1,big?4000:20); std::string o(n,0); ssize_t r; if(closed[w]) break; { EnvScope e; r=::read(sv[w][1],&o[0],n); } if(r<0) r=0; Ev("kread").i("b",w).i("n",r).raw("d",runs((uint8_t*)o.data(),r)); }
            else { EnvScope e; if(x==8){ ::shutdown(sv[w][1],SHUT_WR); closed[w]=true; Ev("keof").i("b",w); } else { sock_reset(sv[w][1]); closed[w]=true; Ev("kreset").i("b",w); signal(SIGPIPE,SIG_IGN); } }
            break; }
        }
    }
    delete bufs[0]; delete bufs[1];
    { EnvScope e; for(auto& v: sv) for(int f: v) ::close(f); }
    Ev("fin");
}
int main(int c,char** v){ return run_main(c,v); }

#include <cy_core.h>
#include "d_util.h"
#include "vs_int.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <unistd.h>
#include <time.h>
#include <errno.h>
#include <thread>
using namespace cyclone;
using namespace vs;
// ------------------------------------------------------------------------------------------ clocks
// instants are [seconds, nanoseconds] since the start of the scenario (wall clock: since the epoch)
static int64_t base;
static std::string at(int64_t n){ int64_t d=n-base; return "["+std::to_string(d/1000000000)+","+std::to_string(d%1000000000)+"]"; }
static std::string wall(int64_t n){ n+=REALTIME_BASE; return "["+std::to_string(n/1000000000)+","+std::to_string(n%1000000000)+"]"; }
static std::string us(int64_t n){ if(n<0) return "[-1,0]"; return "["+std::to_string(n/1000000)+","+std::to_string(n%1000000)+"]"; }
static const char* fmts[]={"%Y%m%d-%H%M%S","%Y_%m_%d-%H:%M:%S","%H:%M:%S %d.%m.%Y"};
static void nap(int64_t ns){ struct timespec t={(time_t)(ns/1000000000),(long)(ns%1000000000)}; nanosleep(&t,0); }
static int64_t span(){ switch(rnd_int(0,9)){ case 0: return 0; case 1: return rnd_int(1,1200); case 2: return rnd_int(900000,1100000); case 3: return rnd_int(1,999999999); case 4: return 1000000000ll-20*rnd_int(0,6); case 5: return 1000000000ll*rnd_int(1,5000)+rnd_int(0,999999999); case 6: return 1000000000ll*86400*rnd_int(1,400)/rnd_int(1,9)+rnd_int(0,999999999); case 7: return rnd_int(1,60)*1000; default: return (int64_t)rnd_int(1,2000)*500000+rnd_int(0,3); } }
static void clk(int t,int k){
    if(k==0){ { Ev("pinv").i("t",t).raw("at",at(now_ns())); } int64_t r=sys_api::performance_time_now(); Ev("pres").i("t",t).raw("at",at(now_ns())).raw("r",us(r)); }
    else if(k==1){ std::string b=wall(now_ns()); int64_t r=sys_api::utc_time_now(); Ev("utc").raw("b",b).raw("c",wall(now_ns())).raw("r",us(r)); }
    else { int f=rnd_int(0,2); char o[64]; memset(o,'#',sizeof o); size_t room=(size_t)(f==0?16:20)+rnd_int(0,3)*8; std::string b=wall(now_ns()); sys_api::local_time_now(o,room,fmts[f]); bool beyond=false; for(size_t i=room;i<sizeof o;i++) if(o[i]!='#') beyond=true; o[63]=0;
        Ev("loc").raw("b",b).raw("c",wall(now_ns())).i("f",f).s_("r",o).b("beyond",beyond); }
}
VS_SCENARIO(clocks){
    int nt=param("nt",-1); if(nt<0) nt=rnd_int(1,3); int ops=param("ops",-1); if(ops<0) ops=rnd_int(2,8); kopt.mem_points=param("mem",rnd_int(0,2)); kopt.round_clock=false; kopt.time_choice=param("clock",rnd_int(0,1)); kopt.clock_points=rnd_int(0,3)!=0;
    int z=rnd_int(0,4); int off[]={0,19800,-12600,46800,-39600}; const char* tz[]={"UTC0","AAA-5:30","BBB3:30","CCC-13","DDD11"}; setenv("TZ",tz[z],1); tzset();
    nap(span()); if(rnd_int(0,1)) nap(1000000000ll-now_ns()%1000000000ll-20*rnd_int(0,8)); base=now_ns(); set_cfg("{\"off\":"+std::to_string(off[z])+"}");
    int mix=param("mix",rnd_int(0,2)); std::vector<std::thread*> v;
    for(int t=0;t<nt;t++) v.push_back(new std::thread([=]{ for(int o=0;o<ops;o++){ clk(t,mix==0?0:rnd_int(0,3)%3); if(rnd_int(0,2)) nap(rnd_int(0,2)?span():rnd_int(1,3000)); } }));
    for(auto t: v) t->join(); { Ev("fin"); } finish("end");
}
// ------------------------------------------------------------------------------------------ reachability test
static const int PP=23000;
static long long now_us(){ return (now_ns()-base)/1000; }
VS_SCENARIO(probe){
    kopt.eintr=false; kopt.time_choice=param("clock",rnd_int(0,3)==0); kopt.conn_now=rnd_int(0,3)==0; kopt.sock_fail=param("sfail",rnd_int(0,5)==0); kopt.fcntl_fail=param("ffail",rnd_int(0,5)==0); kopt.poll_order=true; kopt.round_clock=param("round",0);
    int nt=param("nt",-1); if(nt<0) nt=rnd_int(1,3); int ops=param("ops",-1); if(ops<0) ops=rnd_int(1,4); base=now_ns(); set_cfg(std::string("{\"clock\":")+(kopt.time_choice?"true":"false")+"}");
    on_net=[](int,const char* w,int port,int res){ if(port<PP||port>=PP+10) return; if(!strcmp(w,"connect")) Ev("nc").i("k",port-PP).i("res",res).i("us",now_us()); else if(!strcmp(w,"connect_done")) Ev("nd").i("k",port-PP).i("res",res).i("us",now_us()); };
    std::vector<int> lfd(nt,-1); auto open=[&lfd](int k){ EnvScope e; int fd=socket(AF_INET,SOCK_STREAM|SOCK_NONBLOCK,0); sockaddr_in a; memset(&a,0,sizeof a); a.sin_family=AF_INET; a.sin_port=htons(PP+k); a.sin_addr.s_addr=htonl(INADDR_LOOPBACK); bind(fd,(sockaddr*)&a,sizeof a); listen(fd,20); lfd[k]=fd; };
    for(int k=0;k<nt;k++) open(k);
    std::vector<std::thread*> v; std::vector<int> est(nt,0);
    for(int t=0;t<nt;t++) v.push_back(new std::thread([=]{ for(int o=0;o<ops;o++){
        int d=rnd_int(0,2)?rnd_int(1,30):rnd_int(900,2600), pol=param("pol",-1); if(pol<0) pol=rnd_int(0,8); int tmo=param("tmo",-2); if(tmo==-2) switch(rnd_int(0,7)){ case 0: tmo=-1; break; case 1: tmo=0; break; case 2: tmo=d; break; case 3: tmo=d-1; break; case 4: tmo=d+1; break; case 5: tmo=rnd_int(1000,3000); break; default: tmo=rnd_int(1,40); }
        switch(pol){ case 0: set_connect_policy(PP+t,CP_REFUSE); break; case 1: set_connect_policy(PP+t,CP_UNREACH); break; case 2: case 3: set_connect_policy(PP+t,CP_DELAY,d); break; case 4: set_connect_policy(PP+t,CP_DELAY_REFUSE,d); break; case 5: set_connect_policy(PP+t,CP_TIMEOUT,d); break; case 6: if(tmo>=0){ set_connect_policy(PP+t,CP_HANG); break; } default: set_connect_policy(PP+t,CP_AUTO); }
        sockaddr_in a; memset(&a,0,sizeof a); a.sin_family=AF_INET; a.sin_port=htons(PP+t); a.sin_addr.s_addr=htonl(INADDR_LOOPBACK);
        { Ev("inv").i("t",t).i("tid",tid()).i("tmo",tmo).i("us",now_us()); } bool r=socket_api::check_connect(a,tmo); { Ev("res").i("t",t).b("r",r).i("us",now_us()); }
        if(rnd_int(0,3)==0) sleep_ms(rnd_int(1,20)); } }));
    for(auto t: v) t->join();
    // nothing is left open on either side
    int mine=open_fds()-nt; { Ev("fds").i("n",mine); }
    for(int t=0;t<nt;t++){ EnvScope e; for(;;){ int fd=accept4(lfd[t],nullptr,nullptr,SOCK_NONBLOCK); if(fd<0) break; char c; ssize_t k=read(fd,&c,1); Ev("peer").i("t",t).b("eof",k==0||(k<0&&errno!=EAGAIN)); close(fd); } }
    { Ev("fin"); } finish("end");
}
int main(int c,char** v){ return run_main(c,v); }

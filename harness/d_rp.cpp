#include "d_app.h"
namespace app_rp {
#include "samples/relay/relay_pipe.cpp"
}
// relay_pipe: side 1 talks on port PP (keys 0, 1, ...), side 2 on PP+1 (keys 100, 101, ...)
static const int PP=24000;
static int dsize(){ switch(rnd_int(0,9)){ case 0: return 1; case 1: return rnd_int(200,400); case 2: return rnd_int(1000,1100); case 3: return rnd_int(900,1300); case 4: return rnd_int(40,120); default: return rnd_int(1,20); } }
VS_SCENARIO(pipe){
    a_setup(); g_enc=bytes_json; int mode=param("mode",-1); if(mode<0) mode=rnd_int(0,2); int ops=param("ops",-1); if(ops<0) ops=rnd_int(6,40); int end=param("end",-1); if(end<0) end=rnd_int(0,4); int early=param("early",rnd_int(0,5)==0); int extra=param("extra",-1); if(extra<0) extra=rnd_int(0,2)?0:rnd_int(1,3); bool once=param("once",rnd_int(0,2)!=0);
    kopt.conn_now=rnd_int(0,3)==0; kopt.poll_fifo=param("fifo",0);
    set_cfg("{\"in1\":"+std::string(mode!=1?"true":"false")+",\"in2\":"+(mode==0?"true":"false")+"}");
    static bool in[2]; in[0]=mode!=1; in[1]=mode==0; static int lfd[2]; static int cnt[2]; cnt[0]=cnt[1]=0; static int tries; tries=0; static bool up[2]; up[0]=up[1]=false;
    auto policy=[](int s){ if(in[s]) return; switch(param("pol",rnd_int(0,11))){ case 0: set_connect_policy(PP+s,CP_REFUSE); break; case 1: case 2: set_connect_policy(PP+s,CP_DELAY,rnd_int(1,6)); break; case 3: set_connect_policy(PP+s,CP_DELAY_REFUSE,rnd_int(1,6)); break; case 4: set_connect_policy(PP+s,CP_TIMEOUT,rnd_int(2,8)); break; case 5: set_connect_policy(PP+s,CP_UNREACH); break; default: set_connect_policy(PP+s,CP_AUTO); } };
    for(int s=0;s<2;s++) if(!in[s]){ lfd[s]=a_listen(PP+s); policy(s); }
    std::vector<std::string> a={"-p1",(in[0]?"":"127.0.0.1:")+std::to_string(PP),"-p2",(in[1]?"":"127.0.0.1:")+std::to_string(PP+1)}; if(rnd_int(0,3)==0) a.push_back("-v");
    auto take=[]{ bool any=false; for(int s=0;s<2;s++) if(!in[s]) while(a_accept(lfd[s],100*s+cnt[s])){ cnt[s]++; any=true; } return any; }; g_more=take;
    auto step=[=]{ auto v=a_live(); int w=rnd_int(0,17);
        for(int s=0;s<2;s++) if(in[s]&&(cnt[s]==0||cnt[s]<1+extra)&&rnd_int(0,cnt[s]?7:3)==0){ if(a_connect(100*s+cnt[s],PP+s)) cnt[s]++; return; }
        if(w==0&&!in[1]){ policy(0); policy(1); }
        if(w<3) take(); else if(w==3){ settle(); Ev("settled"); } else if(w==4) sleep_ms(rnd_int(0,5)?rnd_int(1,4):rnd_int(4900,5100)); else if(w==5) for(int z=rnd_int(1,8);z>0;z--) point();
        if(v.empty()) return; Pr* p=v[rnd_int(0,(int)v.size()-1)];
        if(w>=6&&w<13){ a_send(p,pattern(p->base,dsize())); p->base=(int)(p->sent%251); }
        else if(w>=13&&w<16) a_recv(p,rnd_int(1,1500)); else if(w>=16&&rnd_int(0,once?12:3)==0&&end) a_end(p,end); };
    auto quiet=[=]{ for(int z=0;z<4;z++){ a_drain(); sleep_ms(20); } a_drain(); a_quiet(); };
    app_start(app_rp::main,a,"relay_pipe"); if(!early){ settle(); Ev("ready"); }
    std::thread* env=env_thread([=]{ for(int o=0;o<ops;o++) step(); }); env->join();
    for(int s=0;s<2;s++) if(!in[s]) set_connect_policy(PP+s,CP_AUTO);
    a_drain(); if(early){ Ev("ready"); } sleep_ms(5200); for(int s=0;s<2;s++) if(in[s]&&!cnt[s]&&a_connect(100*s,PP+s)) cnt[s]++;
    quiet(); for(int o=0;o<ops/2;o++) step(); quiet();
    { auto v=a_live(); if(!v.empty()&&rnd_int(0,3)){ Pr* p=v[rnd_int(0,(int)v.size()-1)]; if(rnd_int(0,1)) a_close(p); else { a_send(p,pattern(p->base,dsize())); a_shut(p); } quiet(); } }
    app_end();
}
int main(int c,char** v){ return run_main(c,v); }

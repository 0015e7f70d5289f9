#include "d_app.h"
#include <iostream>
// what the interactive clients show goes through the log: texts made of the letters below are shown data
static const char ABC[]="#$&*+<=>?@^~%"; static const int NA=13;
static std::string say(int base,int n){ std::string s(n,0); for(int i=0;i<n;i++) s[i]=ABC[(base+i)%NA]; return s; }
static void app_log(cyclone::LOG_LEVEL,const char* f,...) __attribute__((format(printf,2,3)));
static void app_log(cyclone::LOG_LEVEL,const char* f,...){
    std::string s(70000,0); va_list a; va_start(a,f); int n=vsnprintf(&s[0],s.size(),f,a); va_end(a); s.resize(n<0?0:std::min((size_t)n,s.size()-1));
    if(s.find_first_of(ABC)==std::string::npos) return;
    for(auto& c: s) if(!c||!strchr(ABC,c)) c='x'; Ev("show").s_("s",s);
}
#undef CY_LOG
#define CY_LOG(...) app_log(__VA_ARGS__)
extern "C" void exit(int c){ if(active()){ { Ev("exit").i("r",c); } finish("end"); } _exit(c); }
namespace app_ec {
#include "samples/echo/echo_client.cpp"
}
namespace app_cc {
#include "samples/chat/chat_client.cpp"
}
#undef CY_LOG
// the keyboard: lines typed by the environment, then the end of input
struct Keys : std::streambuf { std::string q, cur; bool end=false;
    int_type underflow(){ block_until([this]{ return !q.empty()||end; }); if(q.empty()){ Ev("eoi"); return traits_type::eof(); } cur.swap(q); q.clear(); setg(&cur[0],&cur[0],&cur[0]+cur.size()); return traits_type::to_int_type(cur[0]); } };
static const int KP=25000;
static int lsize(){ switch(rnd_int(0,9)){ case 0: return 255; case 1: return rnd_int(250,255); case 2: case 3: return rnd_int(60,200); case 4: return 1; case 5: return 0; default: return rnd_int(1,30); } }
static int rsize(){ switch(rnd_int(0,11)){ case 0: return 255; case 1: return 256; case 2: return rnd_int(240,600); case 3: return rnd_int(1000,1100); case 4: return rnd_int(1024,3000); case 5: return 0; case 6: return rnd_int(60,200); default: return rnd_int(1,30); } }
static void go(main_fn m,const char* name,bool chat){
    a_setup(); static Keys* kb; kb=new Keys; std::cin.rdbuf(kb); std::cin.clear(); int ops=param("ops",-1); if(ops<0) ops=rnd_int(4,24); int refuse=rnd_int(0,2)?0:rnd_int(1,2); int fin=param("fin",rnd_int(0,4));
    set_cfg(std::string("{\"chat\":")+(chat?"true":"false")+"}"); kopt.conn_now=rnd_int(0,3)==0;
    static bool ch; ch=chat; auto clean=[](std::string s){ for(auto& c: s) if(!strchr(ABC,c)||!c) c='x'; return s; };
    g_onrecv=[clean](Pr* p,const std::string& d){ if(!ch){ Ev("pr").s_("s",clean(d)); return; }
        p->acc+=d; for(;;){ if(p->acc.size()<4) break; size_t n=(uint8_t)p->acc[0]*256+(uint8_t)p->acc[1]; if(p->acc.size()<4+n) break; { Ev("pr").s_("s",clean(p->acc.substr(4,n))); } p->acc.erase(0,4+n); } { Ev("part").i("n",(int)p->acc.size()); } };
    static int lfd; lfd=a_listen(KP); static int keys; keys=0; static int tries; tries=0; static int ref; ref=refuse;
    set_connect_policy(KP,ref?CP_REFUSE:rnd_int(0,2)?CP_AUTO:CP_DELAY,ref?0:rnd_int(1,6));
    on_net=[](int,const char* w,int port,int res){ if(port!=KP||strcmp(w,"connect")) return; (void)res; tries++; { Ev("attempt").i("now",now_ms()); } if(tries>=ref) set_connect_policy(KP,rnd_int(0,2)?CP_AUTO:CP_DELAY,rnd_int(1,6)); };
    g_more=[]{ bool any=false; while(a_accept(lfd,keys)){ keys++; any=true; } return any; };
    static std::string out; out.clear(); static int nb; nb=rnd_int(0,12); static int lb; lb=rnd_int(0,12);
    auto type=[=]{ int n=lsize(); std::string s=say(lb,n); lb=(lb+n+1)%NA; { Ev("line").s_("s",s); } kb->q+=s+"\n"; };
    auto push=[](Pr* p){ if(out.empty()) return; EnvScope e; ssize_t k=send(p->fd,out.data(),rnd_int(0,2)?out.size():(size_t)rnd_int(1,(int)out.size()),MSG_NOSIGNAL); if(k>0){ out.erase(0,k); Ev("psent").i("n",k); } };
    auto fresh=[=]{ int n=rsize(); std::string s=say(nb,n); nb=(nb+n+1)%NA; if(chat){ { Ev("pmsg").s_("s",s); } std::string w; w+=(char)(n>>8); w+=(char)n; w+=(char)0; w+=(char)rnd_int(0,3); out+=w+s; } else if(n){ { Ev("pmsg").s_("s",s); } out+=s; } };
    auto step=[=]{ auto v=a_live(); int w=rnd_int(0,15); if(w<3) g_more(); else if(w<7) type(); else if(w==7) settle(); else if(w==8) sleep_ms(rnd_int(0,3)?rnd_int(1,5):rnd_int(4900,5100)); else if(w==9) for(int z=rnd_int(1,6);z>0;z--) point();
        if(v.empty()) return; Pr* p=v[0]; if(w>=10&&w<12) a_recv(p,rnd_int(1,400)); else if(w==12&&out.size()<20000){ fresh(); push(p); } else if(w==13&&out.size()<20000){ fresh(); fresh(); } else if(w>13) push(p); };
    auto quiet=[=]{ for(int z=0;z<200;z++){ a_drain(); auto v=a_live(); if(v.empty()||out.empty()) break; push(v[0]); } a_drain(); a_quiet(); };
    app_start(m,{"-h","127.0.0.1","-p",std::to_string(KP)},name);
    std::thread* env=env_thread([=]{ for(int o=0;o<ops;o++) step(); }); env->join();
    a_drain(); sleep_ms(5100*(refuse+1)); quiet(); for(int o=0;o<ops/2;o++) step(); if(rnd_int(0,2)) quiet();
    auto v=a_live(); Pr* p=v.empty()?nullptr:v[0];
    switch(fin){ case 0: quiet(); break; case 1: { Ev("eot"); } kb->end=true; break; case 2: if(p){ quiet(); a_close(p); } break; case 3: if(p) a_shut(p); break; case 4: if(p) a_reset(p); break; }
    if(fin){ settle(); for(int z=0;z<3;z++){ a_drain(); sleep_ms(10); } }
    a_quiet(); app_end();
}
VS_SCENARIO(ecli){ go(app_ec::main,"echo_client",false); }
VS_SCENARIO(ccli){ go(app_cc::main,"chat_client",true); }
int main(int c,char** v){ return run_main(c,v); }

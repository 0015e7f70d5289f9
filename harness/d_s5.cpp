#include "d_app.h"
namespace app_s5 {
#include "samples/socks5/s5_protocol.cpp"
#include "samples/socks5/s5_main.cpp"
}
// host names of the simulated world: anything that starts with h is this machine
extern "C" int getaddrinfo(const char* n,const char* s,const addrinfo* h,addrinfo** r){
    if(!n||n[0]!='h') return EAI_NONAME; addrinfo* a=(addrinfo*)calloc(1,sizeof *a+sizeof(sockaddr_in)); sockaddr_in* i=(sockaddr_in*)(a+1); *i=lo_addr(0); a->ai_family=AF_INET; a->ai_socktype=SOCK_STREAM; a->ai_addrlen=sizeof *i; a->ai_addr=(sockaddr*)i; *r=a; return 0; }
extern "C" void freeaddrinfo(addrinfo* a){ free(a); }
static const int RP=21000;
// client k talks to the proxy; the proxy connects to port RP+k where side 100+k listens
struct Cl { int ph=0; /*0 greeting 1 waits for the method 2 request 3 data*/ std::string todo; int lfd=-1; int rx=0; bool early=false; };
static std::map<int,Cl*> cl;
static int dsize(){ switch(rnd_int(0,7)){ case 0: return 1; case 1: return rnd_int(200,400); case 2: case 3: return rnd_int(40,120); default: return rnd_int(1,20); } }
static std::string greeting(){ std::string s; int w=rnd_int(0,11); s+=(char)(w==0?4:5); int n=rnd_int(0,4)==0?rnd_int(20,255):rnd_int(1,4); int z=w==1?-1:rnd_int(0,n-1); s+=(char)n; for(int i=0;i<n;i++) s+=(char)(i==z?0:rnd_int(1,255)); return s; }
static std::string request(int k){ std::string s; int w=rnd_int(0,15); s+=(char)(w==0?4:5); s+=(char)(w==1?rnd_int(2,3):1); s+=(char)0; int port=RP+k; int ty=w==2?4:rnd_int(0,2)?1:3; s+=(char)ty;
    if(ty==1||ty==4) s+=std::string("\x7f\0\0\1",4); else { std::string h=rnd_int(0,7)?"h"+std::string(rnd_int(0,3)?rnd_int(0,20):254,'a'+k):"x.test"; s+=(char)h.size(); s+=h; } s+=(char)(port>>8); s+=(char)port; return s; }
static void cl_push(Pr* p,Cl* c){ if(c->todo.empty()||p->fd<0) return; size_t n=rnd_int(0,3)?c->todo.size():(size_t)rnd_int(1,(int)c->todo.size()); long k=a_send(p,c->todo.substr(0,n)); if(k>0) c->todo.erase(0,k); if(c->todo.empty()&&c->ph==0) c->ph=1; else if(c->todo.empty()&&c->ph==2) c->ph=3; }
VS_SCENARIO(socks){
    a_setup(); g_enc=bytes_json; cl.clear(); int nc=param("nc",-1); if(nc<0) nc=rnd_int(1,3); int ops=param("ops",-1); if(ops<0) ops=rnd_int(10,50); int end=param("end",-1); if(end<0) end=rnd_int(0,4); int before=open_fds(); (void)before;
    set_cfg("{\"nc\":"+std::to_string(nc)+"}"); app_start(app_s5::main,{"-p","22000","-t",std::to_string(g_cpus)},"socks5"); settle();
    for(int k=0;k<nc;k++){ cl[k]=new Cl; cl[k]->lfd=a_listen(RP+k); switch(param("pol",rnd_int(0,7))){ case 0: set_connect_policy(RP+k,CP_REFUSE); break; case 1: set_connect_policy(RP+k,CP_DELAY,rnd_int(1,6)); break; case 2: set_connect_policy(RP+k,CP_DELAY_REFUSE,rnd_int(1,6)); break; case 3: set_connect_policy(RP+k,CP_TIMEOUT,rnd_int(2,8)); break; case 4: set_connect_policy(RP+k,CP_UNREACH); break; default: set_connect_policy(RP+k,CP_AUTO); } }
    on_net=[](int fd,const char* what,int port,int res){ std::string w=what; if(port<RP||port>=RP+100) return; if(w=="connect"){ Ev("att").i("k",port-RP).i("err",res); } else if(w=="connect_done"){ Ev("attd").i("k",port-RP).i("err",res); } };
    g_onrecv=[](Pr* p,const std::string& d){ { Ev("pr").i("k",p->key).i("n",d.size()).raw("d",bytes_json((const uint8_t*)d.data(),d.size())); } if(p->key<100){ Cl* c=cl[p->key]; c->rx+=d.size(); if(c->ph==1&&c->rx>=2) c->ph=2; } };
    g_more=[]{ bool any=false; for(auto& c: cl) if(c.second->lfd>=0&&!prs.count(100+c.first)&&a_accept(c.second->lfd,100+c.first)) any=true; return any; };
    static int key; key=0; auto step=[=]{ auto v=a_live(); int w=rnd_int(0,15);
        if(v.empty()||(w==0&&key<nc)){ if(key<nc){ int k=key++; a_connect(k,22000); cl[k]->todo=greeting(); } return; } Pr* p=v[rnd_int(0,(int)v.size()-1)];
        if(w<7){ if(p->key>=100){ a_send(p,pattern(p->base,dsize())); p->base=(int)(p->sent%251); return; } Cl* c=cl[p->key]; if(c->ph==2&&c->todo.empty()) c->todo=request(p->key); if(c->ph==3&&c->todo.empty()&&(c->rx>=12||c->early)) c->todo=pattern(p->base+=17,dsize()); cl_push(p,c); }
        else if(w<10) a_recv(p,rnd_int(1,300)); else if(w==10){ settle(); for(auto& c: cl) if(c.second->ph==3&&c.second->todo.empty()) c.second->early=true; } else if(w==11) sleep_ms(rnd_int(1,4)); else if(w==12) for(int z=rnd_int(1,8);z>0;z--) point(); else if(w<15) g_more(); else if(rnd_int(0,2)==0&&end) a_end(p,end); };
    std::thread* env=env_thread([=]{ for(int o=0;o<ops;o++) step(); });
    env->join(); for(int z=0;z<200;z++){ bool any=false; a_drain(); for(auto p: a_live()) if(p->key<100&&!cl[p->key]->todo.empty()&&!p->eof){ cl_push(p,cl[p->key]); any=true; } if(!any) break; } sleep_ms(20); a_drain(); a_quiet();
    for(int o=0;o<ops/2;o++) step(); a_drain(); sleep_ms(20); a_drain(); a_quiet();
    if(rnd_int(0,1)){ auto v=a_live(); if(!v.empty()){ a_close(v[rnd_int(0,(int)v.size()-1)]); a_drain(); sleep_ms(20); a_drain(); a_quiet(); } }
    app_end();
}
int main(int c,char** v){ return run_main(c,v); }

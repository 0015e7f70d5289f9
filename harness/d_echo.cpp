#include "d_app.h"
namespace app_echo {
#include "samples/echo/echo_server.cpp"
}
namespace app_chat {
#include "samples/chat/chat_server.cpp"
}
// ------------------------------------------------------------------------------------------ echo server
static int psize(){ switch(rnd_int(0,9)){ case 0: return 1; case 1: return rnd_int(250,260); case 2: return rnd_int(300,700); case 3: case 4: return rnd_int(60,200); default: return rnd_int(1,30); } }
VS_SCENARIO(echo){
    a_setup(); g_enc=bytes_json; int nc=param("nc",-1); if(nc<0) nc=rnd_int(1,3); int ops=param("ops",-1); if(ops<0) ops=rnd_int(3,16); int end=param("end",-1); if(end<0) end=rnd_int(0,4);
    set_cfg("{\"nc\":"+std::to_string(nc)+"}"); std::thread* app=app_start(app_echo::main,{"-p","22000"},"echo"); settle();
    std::thread* env=env_thread([=]{ int key=0; for(int o=0;o<ops;o++){ auto v=a_live(); int w=rnd_int(0,11);
        if(v.empty()||(w==0&&key<nc)){ if(key<nc) a_connect(key++,22000); continue; } Pr* p=v[rnd_int(0,(int)v.size()-1)];
        if(w<6){ int n=psize(); long k=a_send(p,text(p->base,n)); if(k>0) p->base+=k; } else if(w<9) a_recv(p,rnd_int(1,400)); else if(w==9) settle(); else if(w==10) for(int z=rnd_int(1,6);z>0;z--) point(); else if(rnd_int(0,2)==0&&end) a_end(p,end); } });
    env->join(); a_drain(); a_quiet();
    kopt.short_io=false; /* the two commands have to arrive in one piece */ std::vector<Pr*> v=a_live(); std::vector<Pr*> o; for(auto p: v) if(!p->eof) o.push_back(p);
    if(!o.empty()&&rnd_int(0,2)){ Pr* p=o[rnd_int(0,(int)o.size()-1)]; a_send(p,"exit","pxit"); a_drain(); a_quiet(); }
    if(rnd_int(0,2)==0){ Pr* p=a_connect(90,22000); if(p){ a_send(p,text(5,20)); a_drain(); a_quiet(); } }
    Pr* last=rnd_int(0,2)?a_connect(91,22000):nullptr;
    if(last){ settle(); a_send(last,"shutdown","pstop"); a_drain(); app->join(); settle(); a_drain(); a_quiet(); }
    app_end();
}
// ------------------------------------------------------------------------------------------ chat server
// content of message q of client k: k, q, then a pattern
static std::string chat_msg(int k,int q,int n){ std::string b; b+=(char)k; b+=(char)q; b+=pattern(k*31+q*7,n); cyclone::Packet* p=cyclone::Packet::alloc_packet(); p->build_from_memory(4,0,(uint16_t)b.size(),b.data()); std::string w(p->get_memory_buf(),p->get_memory_size()); cyclone::Packet::free_packet(p); return w; }
static void chat_recv(Pr* p,const std::string& d){ p->acc+=d; for(;;){ if(p->acc.size()<4) return; const uint8_t* h=(const uint8_t*)p->acc.data(); size_t n=h[0]*256+h[1]; int id=h[2]*256+h[3]; if(p->acc.size()<4+n) return;
    { Ev("cr").i("k",p->key).i("id",id).i("n",n).i("f",n>0?h[4]:-1).i("q",n>1?h[5]:-1).raw("b",runs(h+4,n)); } p->acc.erase(0,4+n); } }
struct Snd { std::string rest; int q=0; };
VS_SCENARIO(chat){
    a_setup(); g_enc=[](const uint8_t* p,size_t n){ return runs(p,n); }; g_onrecv=chat_recv; int nc=param("nc",-1); if(nc<0) nc=rnd_int(2,4); int ops=param("ops",-1); if(ops<0) ops=rnd_int(6,24); int end=param("end",-1); if(end<0) end=rnd_int(0,4); int maxc=nc;
    set_cfg("{\"nc\":"+std::to_string(nc)+"}"); app_start(app_chat::main,{"-p","22000"},"chat"); settle(); static std::map<int,Snd>* snd; snd=new std::map<int,Snd>;
    auto push=[](Pr* p){ Snd& s=(*snd)[p->key]; EnvScope e; if(p->fd<0||s.rest.empty()) return; ssize_t k=send(p->fd,s.rest.data(),rnd_int(0,2)?s.rest.size():(size_t)rnd_int(1,(int)s.rest.size()),MSG_NOSIGNAL); if(k>0){ s.rest.erase(0,k); if(s.rest.empty()) Ev("cw").i("k",p->key).i("q",s.q-1); } };
    auto fresh=[](Pr* p){ Snd& s=(*snd)[p->key]; if(!s.rest.empty()||s.q>=200) return; int n=rnd_int(0,3)==0?0:rnd_int(0,3)?rnd_int(1,40):rnd_int(100,400); std::string w=chat_msg(p->key,s.q,n); { Ev("cm").i("k",p->key).i("q",s.q).raw("b",runs((const uint8_t*)w.data()+4,w.size()-4)); } s.q++; s.rest=w; };
    std::thread* env=env_thread([=]{ int key=1; for(int o=0;o<ops;o++){ auto v=a_live(); int w=rnd_int(0,13);
        if(v.empty()||(w<2&&key<=maxc)){ if(key<=maxc) a_connect(key++,22000); continue; } Pr* p=v[rnd_int(0,(int)v.size()-1)];
        if(w<5){ fresh(p); push(p); } else if(w<7) push(p); else if(w<10) a_recv(p,rnd_int(1,300)); else if(w==10){ settle(); { Ev("joined"); } } else if(w==11) for(int z=rnd_int(1,6);z>0;z--) point(); else if(rnd_int(0,2)==0&&end){ Snd& s=(*snd)[p->key]; (void)s; a_end(p,end); } } });
    env->join(); for(int z=0;z<200;z++){ bool any=false; a_drain(); for(auto p: a_live()) if(!(*snd)[p->key].rest.empty()){ push(p); any=true; } if(!any) break; } a_drain(); a_quiet();
    { Ev("joined"); } for(auto p: a_live()) if(rnd_int(0,1)){ fresh(p); push(p); } for(int z=0;z<200;z++){ bool any=false; a_drain(); for(auto p: a_live()) if(!(*snd)[p->key].rest.empty()){ push(p); any=true; } if(!any) break; } a_drain(); a_quiet();
    app_end();
}
int main(int c,char** v){ return run_main(c,v); }

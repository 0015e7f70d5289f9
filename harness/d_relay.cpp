#include "d_app.h"
#include "samples/relay/relay_protocol.h"
namespace app_rl {
#include "samples/relay/relay_local.cpp"
}
namespace app_rs {
#include "samples/relay/relay_server.cpp"
}
// client k talks to relay_local; its first byte is 128+k; the connections the target gets are named 100+i in the
// order they arrive and say whose they are with their first byte; strangers (200+i) talk to relay_server
static const int RP=21000, LP=22000, SP=23000;
static int dsize(){ switch(rnd_int(0,9)){ case 0: return 1; case 1: return rnd_int(200,400); case 2: return rnd_int(14,17); case 3: return rnd_int(31,33); case 4: return rnd_int(40,120); default: return rnd_int(1,20); } }
VS_SCENARIO(relay){
    a_setup(); g_enc=bytes_json; int nc=param("nc",-1); if(nc<0) nc=rnd_int(1,4); int ops=param("ops",-1); if(ops<0) ops=rnd_int(10,60); int end=param("end",-1); if(end<0) end=rnd_int(0,4); int enc=param("enc",-1); if(enc<0) enc=rnd_int(0,1); int early=param("early",rnd_int(0,5)==0); int nx=param("nx",rnd_int(0,3)==0?2:0);
    set_cfg("{\"nc\":"+std::to_string(nc)+"}"); std::vector<std::string> sa={"-p",std::to_string(SP),"-uh","127.0.0.1","-up",std::to_string(RP),"-t",std::to_string(rnd_int(1,3))}, la={"-p",std::to_string(LP),"-uh","127.0.0.1","-up",std::to_string(SP),"-t",std::to_string(g_cpus)};
    if(enc){ sa.push_back("-e"); la.push_back("-e"); } if(rnd_int(0,3)==0){ sa.push_back("-s"); la.push_back("-s"); } if(rnd_int(0,3)==0){ sa.push_back("-v"); la.push_back("-v"); }
    static int lfd; lfd=a_listen(RP); static int acc; acc=0; static int key; key=0; static int skey; skey=0; static std::map<int,int> own; own.clear(); static std::map<int,bool> hello; hello.clear();
    on_net=[](int fd,const char* what,int port,int res){ std::string w=what; if(port!=RP||res==0) return; if(w=="connect"||w=="connect_done") Ev("nf"); };
    g_onrecv=[](Pr* p,const std::string& d){ std::string r=d; if(p->key>=100&&p->key<200&&!own.count(p->key)){ int k=(uint8_t)r[0]-128; own[p->key]=k; { Ev("own").i("k",p->key).i("c",k); } r.erase(0,1); if(r.empty()) return; } Ev("pr").i("k",p->key).i("n",r.size()).raw("d",bytes_json((const uint8_t*)r.data(),r.size())); };
    g_more=[]{ bool any=false; while(a_accept(lfd,100+acc)){ acc++; any=true; } return any; };
    auto policy=[]{ switch(param("pol",rnd_int(0,24))){ case 0: set_connect_policy(RP,CP_REFUSE); break; case 1: set_connect_policy(RP,CP_DELAY,rnd_int(1,6)); break; case 2: set_connect_policy(RP,CP_DELAY_REFUSE,rnd_int(1,6)); break; case 3: set_connect_policy(RP,CP_TIMEOUT,rnd_int(2,8)); break; case 4: set_connect_policy(RP,CP_UNREACH); break; default: set_connect_policy(RP,CP_AUTO); } };
    auto hi=[]{ for(auto& h: hello) if(!h.second){ Pr* p=prs[h.first]; if(p->fd<0) continue; EnvScope e; char c=(char)(128+h.first); if(send(p->fd,&c,1,MSG_NOSIGNAL)==1) h.second=true; } };
    auto step=[=]{ hi(); auto v=a_live(); int w=rnd_int(0,17);
        if(v.empty()||(w==0&&key<nc)){ if(key<nc){ policy(); int k=key++; if(a_connect(k,LP)) hello[k]=false; hi(); } return; }
        if(w==1&&skey<nx){ int k=200+skey++; Pr* p=a_connect(k,SP); if(p){ std::string s; int t=rnd_int(0,3); if(t==0){ s=pattern(1,rnd_int(1,60)); s.insert(0,std::string("\0\1\0\1",4)); } else if(t==1) s=std::string("\0\x10\0\x66",4)+pattern(1,30); else if(t==2) s=std::string("\0\x11\0\x64",4)+pattern(1,30); else s=std::string("\0\0",2); a_send(p,s); } return; }
        Pr* p=v[rnd_int(0,(int)v.size()-1)];
        if(w<9){ if(p->key>=200){ if(rnd_int(0,1)) a_send(p,pattern(p->key,rnd_int(1,9))); return; } if(p->key<100?!hello[p->key]:!own.count(p->key)) return; a_send(p,pattern(p->base,dsize())); p->base=(int)(p->sent%251); }
        else if(w<11) a_recv(p,rnd_int(1,300)); else if(w==11) settle(); else if(w==12) sleep_ms(rnd_int(1,4)); else if(w==13) for(int z=rnd_int(1,8);z>0;z--) point(); else if(w<16) g_more(); else if(rnd_int(0,2)==0&&end) a_end(p,end); };
    auto quiet=[=]{ for(int z=0;z<4;z++){ hi(); a_drain(); sleep_ms(20); } hi(); a_drain(); a_quiet(); };
    app_start(app_rs::main,sa,"relay_server"); settle(); app_start(app_rl::main,la,"relay_local");
    std::thread* env=env_thread([=]{ if(!early) settle(); if(!early){ Ev("ready"); } for(int o=0;o<ops;o++) step(); });
    env->join(); quiet(); if(early){ Ev("ready"); } for(int o=0;o<ops/2;o++) step(); quiet();
    if(rnd_int(0,1)){ auto v=a_live(); if(!v.empty()){ a_close(v[rnd_int(0,(int)v.size()-1)]); quiet(); } }
    app_end();
}
int main(int c,char** v){ return run_main(c,v); }

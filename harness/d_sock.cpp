#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
#include "d_util.h"
#include "vs_int.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <map>
using namespace cyclone;
using namespace vs;
// ------------------------------------------------------------------------------------------ the socket calls
struct Sk{ int fd; bool udp; int st; int port; int peer; bool ended; };   // st 0 new, 1 bound, 2 listening, 3 connected, 4 refused, 5 closed
static std::vector<Sk> sk; static const int SP=24000;
static std::string sets(int fd){ EnvScope e; int x=0; socklen_t l=sizeof x; std::string o="["; auto add=[&o](int v){ if(o.size()>1) o+=","; o+=std::to_string(v); };
    add((fcntl(fd,F_GETFL,0)&O_NONBLOCK)!=0); add((fcntl(fd,F_GETFD,0)&FD_CLOEXEC)!=0);
    for(int op: {SO_KEEPALIVE,SO_REUSEADDR,SO_REUSEPORT}){ l=sizeof x; x=0; getsockopt(fd,SOL_SOCKET,op,&x,&l); add(x); } l=sizeof x; x=0; getsockopt(fd,IPPROTO_TCP,TCP_NODELAY,&x,&l); add(x);
    struct linger g; memset(&g,0,sizeof g); l=sizeof g; getsockopt(fd,SOL_SOCKET,SO_LINGER,&g,&l); add(g.l_onoff); add(g.l_linger); return o+"]"; }
static int kport(int fd){ EnvScope e; sockaddr_in a; socklen_t l=sizeof a; memset(&a,0,sizeof a); if(getsockname(fd,(sockaddr*)&a,&l)) return -1; return ntohs(a.sin_port); }
static bool has_peer(int fd){ EnvScope e; sockaddr_in x; socklen_t l=sizeof x; return getpeername(fd,(sockaddr*)&x,&l)==0; }
static sockaddr_in lo(int port){ sockaddr_in a; memset(&a,0,sizeof a); a.sin_family=AF_INET; a.sin_port=htons(port); a.sin_addr.s_addr=htonl(INADDR_LOOPBACK); return a; }
static std::string raws(const char* p,ssize_t n){ std::string o="["; for(ssize_t i=0;i<n;i++) o+=(i?",":"")+std::to_string((unsigned char)p[i]); return o+"]"; }
static void sk_set(int i,int w,bool on,int tm){ int fd=i<0?INVALID_SOCKET:sk[i].fd; bool r=false; { Ev("sinv").i("i",i); }
    switch(w){ case 0: r=socket_api::set_nonblock(fd,on); break; case 1: r=socket_api::set_close_onexec(fd,on); break; case 2: r=socket_api::set_keep_alive(fd,on); break; case 3: r=socket_api::set_reuse_addr(fd,on); break; case 4: r=socket_api::set_reuse_port(fd,on); break; case 5: r=socket_api::set_nodelay(fd,on); break; default: r=socket_api::set_linger(fd,on,(uint16_t)tm); break; }
    Ev("set").i("i",i).i("w",w).b("on",on).i("tm",tm).b("ok",r).raw("o",i<0?"[]":sets(fd)); }
static void sk_io(int i){ int fd=sk[i].fd; { EnvScope e; if(!(fcntl(fd,F_GETFL,0)&O_NONBLOCK)) return; } char b[64];
    int n=rnd_int(1,40); Sk& s=sk[i];
    if(s.st==2){ sockaddr_in a; memset(&a,0,sizeof a); bool wa=rnd_int(0,2)!=0; int f=socket_api::accept(fd,wa?&a:nullptr); bool wb=f<0&&socket_api::is_lasterror_WOULDBLOCK(); if(f>=0){ sk.push_back({f,false,3,s.port,-1,false}); }
        Ev("acc").i("i",i).i("j",f>=0?(int)sk.size()-1:-1).b("wb",wb).i("p",wa&&f>=0?ntohs(a.sin_port):-1).raw("o",f>=0?sets(f):"[]"); if(f>=0){ int j=(int)sk.size()-1; for(int w: {0,1}) if(w==0||rnd_int(0,1)) sk_set(j,w,true,0); } return; }
    if(s.udp){ if(rnd_int(0,1)){ if(s.st!=1) return; for(int k=0;k<n;k++) b[k]=(char)rnd_int(0,255); std::vector<int> to; for(auto& q: sk) if(q.udp&&q.st==1) to.push_back(q.port); int p=to.empty()||rnd_int(0,5)==0?SP+50:to[rnd_int(0,(int)to.size()-1)]; ssize_t r=socket_api::sendto(fd,b,n,lo(p)); Ev("st").i("i",i).i("p",p).raw("b",raws(b,n)).i("r",r); }
        else { sockaddr_in a; memset(&a,0,sizeof a); ssize_t r=socket_api::recvfrom(fd,b,n,a); bool wb=r<0&&socket_api::is_lasterror_WOULDBLOCK(); Ev("rf").i("i",i).i("n",n).i("r",r).b("wb",wb).i("p",r>=0?ntohs(a.sin_port):-1).raw("b",raws(b,r)); } return; }
    if(s.st!=3) return;
    if(rnd_int(0,1)){ if(s.ended) return; for(int k=0;k<n;k++) b[k]=(char)rnd_int(0,255); ssize_t r=socket_api::write(fd,b,n); bool wb=r<0&&socket_api::is_lasterror_WOULDBLOCK(); Ev("wr").i("i",i).raw("b",raws(b,n)).i("r",r).b("wb",wb); }
    else { ssize_t r=socket_api::read(fd,b,n); bool wb=r<0&&socket_api::is_lasterror_WOULDBLOCK(); Ev("rd").i("i",i).i("n",n).i("r",r).b("wb",wb).raw("b",raws(b,r)); } }
VS_SCENARIO(sock){
    signal(SIGPIPE,SIG_IGN); sk.clear(); kopt.sock_fail=rnd_int(0,4)==0; kopt.fcntl_fail=rnd_int(0,4)==0; kopt.setfd_fail=rnd_int(0,4)==0; kopt.short_io=rnd_int(0,1); kopt.conn_now=rnd_int(0,1); kopt.eintr=false; int rx[]={16,100,4096}; kopt.sock_rxcap=rx[rnd_int(0,2)]; int before=open_fds(); int ops=param("ops",-1); if(ops<0) ops=rnd_int(10,70); set_cfg("{}");
    auto ended=[](int i){ sk[i].ended=true; for(auto& q: sk) if(q.peer==i) q.ended=true; if(sk[i].peer>=0) sk[sk[i].peer].ended=true; };
    auto pair=[](){ for(size_t a=0;a<sk.size();a++) if(sk[a].st==3&&sk[a].peer<0) for(size_t b=0;b<sk.size();b++) if(b!=a&&sk[b].st==3&&sk[b].peer<0){ EnvScope e; sockaddr_in x; socklen_t l=sizeof x; memset(&x,0,sizeof x); if(getpeername(sk[a].fd,(sockaddr*)&x,&l)) continue; int pp=ntohs(x.sin_port); l=sizeof x; memset(&x,0,sizeof x); if(getpeername(sk[b].fd,(sockaddr*)&x,&l)) continue; int qp=ntohs(x.sin_port); if(kport(sk[b].fd)==pp&&kport(sk[a].fd)==qp){ sk[a].peer=(int)b; sk[b].peer=(int)a; if(sk[a].ended||sk[b].ended) sk[a].ended=sk[b].ended=true; } } };
    for(int o=0;o<ops;o++){ pair(); int n=(int)sk.size(); std::vector<int> live; for(int k=0;k<n;k++) if(sk[k].st!=5) live.push_back(k); int i=live.empty()?-1:live[rnd_int(0,(int)live.size()-1)]; int w=rnd_int(0,19);
        if(i<0||(w<=2&&live.size()<7)){ bool udp=rnd_int(0,2)==0; { Ev("ninv"); } int fd=socket_api::create_socket(udp); int ty=-1; if(fd>=0){ EnvScope e; socklen_t l=sizeof ty; getsockopt(fd,SOL_SOCKET,SO_TYPE,&ty,&l); sk.push_back({fd,udp,0,-1,-1,false}); }
            Ev("new").i("i",fd>=0?(int)sk.size()-1:-1).b("udp",udp).b("dg",ty==SOCK_DGRAM).raw("o",fd>=0?sets(fd):"[]"); if(fd>=0&&rnd_int(0,4)) sk_set((int)sk.size()-1,0,true,0); continue; }
        int fd=sk[i].fd; bool nb; { EnvScope e; nb=(fcntl(fd,F_GETFL,0)&O_NONBLOCK)!=0; }
        switch(w){
        case 3: case 4: sk_set(rnd_int(0,12)?i:-1,rnd_int(1,6),rnd_int(0,2)!=0,rnd_int(0,1)?0:rnd_int(1,300)); break;
        case 5: sk_set(i,0,rnd_int(0,3)!=0,0); break;
        case 6: case 7: if(sk[i].st==0||rnd_int(0,9)==0){ if(sk[i].st>1&&!sk[i].udp) break; int p=SP+rnd_int(0,3); bool r=socket_api::bind(fd,lo(p)); Ev("bind").i("i",i).i("p",p).b("ok",r).i("kp",kport(fd)); if(r){ sk[i].st=1; sk[i].port=p; } } break;
        case 8: if(!sk[i].udp&&(sk[i].st==1||rnd_int(0,9)==0)&&sk[i].st!=0&&sk[i].st!=4){ bool r=socket_api::listen(fd); int a=0; { EnvScope e; socklen_t l=sizeof a; getsockopt(fd,SOL_SOCKET,SO_ACCEPTCONN,&a,&l); } Ev("listen").i("i",i).b("ok",r).b("k",a!=0); if(r&&sk[i].st==1) sk[i].st=2; } break;
        case 9: case 10: case 11: if(!sk[i].udp&&nb&&(sk[i].st==0||(sk[i].st==3&&!sk[i].ended&&has_peer(fd)&&rnd_int(0,5)==0))){ int p=SP+rnd_int(0,3); std::vector<int> ls; for(auto& q: sk) if(q.st==2) ls.push_back(q.port); if(!ls.empty()&&rnd_int(0,5)) p=ls[rnd_int(0,(int)ls.size()-1)]; bool un=sk[i].st==0&&rnd_int(0,7)==0; set_connect_policy(p,un?CP_UNREACH:CP_AUTO,0); bool r=socket_api::connect(fd,lo(p)); int le=r?0:socket_api::get_lasterror(); set_connect_policy(p,CP_AUTO,0); bool kc; { EnvScope e; sockaddr_in x; socklen_t l=sizeof x; kc=getpeername(fd,(sockaddr*)&x,&l)==0; }
                Ev("conn").i("i",i).i("p",p).b("un",un).b("ok",r).i("le",le).i("kp",kport(fd)).b("kc",kc); if(sk[i].st==0&&r) sk[i].st=kc?3:4; } break;
        case 12: { int v=socket_api::get_socket_error(fd); Ev("err").i("i",i).i("v",v); break; }
        case 13: { sockaddr_in a; memset(&a,0xEE,sizeof a); bool me=rnd_int(0,1); bool r=me?socket_api::getsockname(fd,a):socket_api::getpeername(fd,a); Ev("name").i("i",i).b("me",me).b("ok",r).i("p",r?ntohs(a.sin_port):-1).b("lo",r&&a.sin_addr.s_addr==htonl(INADDR_LOOPBACK)); break; }
        case 14: if(!sk[i].udp&&sk[i].st!=2){ bool r=socket_api::shutdown(fd); if(r) ended(i); Ev("shut").i("i",i).b("ok",r); } break;
        case 15: if(rnd_int(0,1)){ ended(i); socket_api::close_socket(fd); sk[i].st=5; Ev("close").i("i",i).i("left",open_fds()-before); } break;
        case 16: { uint32_t x=(uint32_t)rnd_int(0,65535)<<16|(uint32_t)rnd_int(0,65535); uint16_t y=(uint16_t)rnd_int(0,65535); uint32_t r=socket_api::ntoh_32(x); Ev("ntoh").raw("x","["+std::to_string(x>>16)+","+std::to_string(x&65535)+"]").raw("r","["+std::to_string(r>>16)+","+std::to_string(r&65535)+"]").i("y",y).i("q",socket_api::ntoh_16(y)); break; }
        default: for(int k=rnd_int(1,3);k>0;k--){ pair(); sk_io(i); } } }
    for(size_t k=0;k<sk.size();k++) if(sk[k].st!=5){ socket_api::close_socket(sk[k].fd); sk[k].st=5; }
    Ev("left").i("n",open_fds()-before); Ev("fin"); finish("end");
}
// ------------------------------------------------------------------------------------------ the sockets the library sets up itself
static std::map<int,std::string>* kinds; static bool reuse;
VS_SCENARIO(prep){
    kinds=new std::map<int,std::string>; kopt.short_io=rnd_int(0,1); kopt.conn_now=rnd_int(0,1); kopt.poll_order=rnd_int(0,1); int before=open_fds(); set_cfg("{}"); int nw=rnd_int(1,2), nc=rnd_int(1,3), np=rnd_int(1,2);
    on_fd_open=[](int fd,const char* k){ if(!is_env()) (*kinds)[fd]=k; }; on_fd_close=[](int fd,const char*){ kinds->erase(fd); };
    std::map<int,bool>* ru=new std::map<int,bool>; on_net=[ru](int fd,const char* w,int port,int res){ if(!strcmp(w,"listen")&&ru->count(port)){ Ev("prep").s_("w","lis").b("reuse",(*ru)[port]).raw("o",sets(fd)); } };
    auto all=[]{ int n=0,bad=0; for(auto& k: *kinds){ n++; if(!fd_cloexec(k.first)) bad++; } Ev("all").i("n",n).i("bad",bad); };
    TcpServer* sv=new TcpServer(); sv->m_listener.on_connected=[](TcpServer*,int32_t,TcpConnectionPtr c){ Ev("prep").s_("w","srv").b("reuse",false).raw("o",sets(c->get_socket())); };
    for(int k=0;k<np;k++){ bool r=rnd_int(0,1); (*ru)[SP+k]=r; bool ok=sv->bind(Address(SP+k,true),r); Ev("bnd").b("ok",ok); }
    sv->start(nw); settle(); Looper* lp=Looper::create_looper(); std::vector<TcpClientPtr> cs; int up=0;
    for(int k=0;k<nc;k++){ TcpClientPtr c=std::make_shared<TcpClient>(lp,nullptr,k); c->m_listener.on_connected=[&up](TcpClientPtr,TcpConnectionPtr q,bool ok)->uint32_t{ if(ok) Ev("prep").s_("w","cli").b("reuse",false).raw("o",sets(q->get_socket())); else Ev("failed"); up++; return 0; };
        cs.push_back(c); bool ok=c->connect(Address("127.0.0.1",SP+rnd_int(0,np-1))); { Ev("cn").b("ok",ok); } if(!ok) up++; }
    lp->register_timer_event(5,nullptr,[&](Looper::event_id_t id,void*){ if(up==nc){ lp->delete_event(id); lp->push_stop_request(); } }); lp->loop(); settle(); all();
    for(auto& c: cs) c->disconnect(); cs.clear(); settle(); Looper::destroy_looper(lp); sv->stop(); sv->join(); delete sv; settle();
    Ev("left").i("n",open_fds()-before); Ev("fin"); finish("end");
}
int main(int c,char** v){ return run_main(c,v); }

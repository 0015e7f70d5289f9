#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
#include "d_util.h"
#include <thread>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <map>
#include <set>
#include <sys/socket.h>
#include <arpa/inet.h>
using namespace cyclone;
using namespace vs;
static long long us(){ return (now_ns()-1000000000ll)/1000; }
// ------------------------------------------------------------------------------------------ one connection and its peer
struct Cn { bool stat=false;
    int key=0, pfd=-1, port=0; long long recvd=0, sent=0; bool eof=false, accepted=false; int base=0;
    TcpConnectionPtr conn; int sfd=-1; bool open=false, told=false; int seenst=1; int budget=0; int idx=-1; bool shutreq=false;
};
static std::map<int,Cn*> cns; static int nextmsg;
static long long kbytes(Cn* c){ return c->pfd<0?-1:c->recvd+(long long)sock_unread(c->pfd); }
// ---- what the peer does (environment)
static bool p_recv(Cn* c,int max){ EnvScope e; if(c->pfd<0||c->eof) return false; std::string b(max,0); ssize_t k=read(c->pfd,&b[0],max);
    if(k>0){ c->recvd+=k; Ev("recv").i("c",c->key).raw("d",runs((const uint8_t*)b.data(),k)).i("n",k); return true; }
    if(k==0){ c->eof=true; Ev("peof").i("c",c->key); return true; }
    if(errno!=EAGAIN){ c->eof=true; Ev("perr").i("c",c->key).i("err",errno); return true; } return false; }
static void p_drain(Cn* c){ while(p_recv(c,700)); }
static void p_send(Cn* c,int n){ EnvScope e; if(c->pfd<0) return; std::string d=pattern(c->base,n); ssize_t k=send(c->pfd,d.data(),n,MSG_NOSIGNAL); if(k>0){ Ev("psend").i("c",c->key).i("b",c->base).i("n",k); c->base=(c->base+k+(rnd_int(0,3)?0:rnd_int(1,99)))%251; c->sent+=k; } }
static void p_close(Cn* c){ EnvScope e; if(c->pfd<0) return; long long un=sock_unread(c->pfd); { Ev("pclose").i("c",c->key).i("un",un); } close(c->pfd); c->pfd=-1; }
static void p_shut(Cn* c){ EnvScope e; if(c->pfd<0) return; { Ev("pshut").i("c",c->key); } shutdown(c->pfd,SHUT_WR); }
static void p_reset(Cn* c){ EnvScope e; if(c->pfd<0) return; { Ev("preset").i("c",c->key); } sock_reset(c->pfd); c->pfd=-1; }
static int msize(){ switch(rnd_int(0,9)){ case 0: return 1; case 1: return rnd_int(900,1100); case 2: return rnd_int(1500,3000); case 3: case 4: return rnd_int(100,400); default: return rnd_int(1,40); } }
static int g_quitp=2;
// end: 0 never ends the connection, 1 may close, 2 may reset, 3 may half close, 4 any
static void peer_op(Cn* c,int end,int quit){
    int w=rnd_int(0,11);
    if(w<4) p_recv(c,rnd_int(0,2)?rnd_int(1,200):1000); else if(w<6) p_drain(c); else if(w<8) p_send(c,msize()); else if(w==8) settle(); else if(w==9) sleep_ms(1); else if(w==10){ for(int k=rnd_int(1,5);k>0;k--) point(); }
    else if(quit&&rnd_int(0,g_quitp)==0){ int x=end==4?rnd_int(1,3):end; if(x==1) p_close(c); else if(x==2) p_reset(c); else if(x==3) p_shut(c); }
}
// ---- what the program does with its end
static int insend[64]; static int g_sent, g_polled[64];
static void c_send(Cn* c,TcpConnectionPtr conn,int n){ int me=tid()&63; if(insend[me]) return; insend[me]=1; int b=(nextmsg*37)%251; nextmsg++; std::string d=pattern(b,n); { Ev("send").i("c",c->key).i("b",b).i("n",n); } conn->send(d.data(),d.size()); { Ev("sent").i("c",c->key); g_sent++; } memset(&d[0],0x55,d.size()); insend[me]=0; }
static void c_shut(Cn* c,TcpConnectionPtr conn){ if(conn->get_state()!=TcpConnection::kConnected&&conn->get_state()!=TcpConnection::kDisconnecting) return; { Ev("shut").i("c",c->key); } conn->shutdown(); { Ev("shutd").i("c",c->key); } }
static void c_state(Cn* c,TcpConnectionPtr conn){ int lo=c->seenst; { Ev("gsi").i("c",c->key); } int v=conn->get_state(); { Ev("gs").i("c",c->key).i("v",v).i("lo",lo); } if(v>c->seenst) c->seenst=v; }
static void c_stats(Cn* c,TcpConnectionPtr conn){ auto w=conn->get_write_statistics(); auto r=conn->get_read_statistics(); Ev("stats").i("c",c->key).b("on",c->stat).i("w",(long long)w.first>2000000000?-1:(long long)w.first).i("r",(long long)r.first>2000000000?-1:(long long)r.first).i("wc",w.second).i("rc",r.second).i("k",kbytes(c)).i("rmax",conn->get_readebuf_max_size()).i("wmax",conn->get_writebuf_max_size()); }
static int shutp; static bool g_stats;
static void cb_work(Cn* c,TcpConnectionPtr conn,bool may){
    if(rnd_int(0,g_stats?2:7)==0) c_stats(c,conn);
    if(c->budget>0){ c->budget--; int n=rnd_int(0,3); if(n>2) n=0; for(int k=0;k<n;k++) c_send(c,conn,msize()); }
    if(may&&shutp&&rnd_int(0,shutp)==0) c_shut(c,conn);
}
static void cb_message(Cn* c,TcpConnectionPtr conn){
    RingBuf& b=conn->get_input_buf(); size_t have=b.size(); size_t take= rnd_int(0,4)==0?0:rnd_int(0,2)?have:(size_t)rnd_int(0,(int)have); std::string d(take?take:1,0); size_t k=b.memcpy_out(&d[0],take);
    { Ev("msg").i("c",c->key).i("have",have).i("took",k).raw("d",runs((const uint8_t*)d.data(),k)).i("left",b.size()).i("st",conn->get_state()).i("id",conn->get_id()); }
    cb_work(c,conn,true); Ev("cbend").i("c",c->key);
}
static void cb_sendc(Cn* c,TcpConnectionPtr conn){ { Ev("sendc").i("c",c->key).i("k",kbytes(c)).i("st",conn->get_state()); } if(rnd_int(0,2)==0) cb_work(c,conn,true); Ev("cbend").i("c",c->key); }
static void cb_close(Cn* c,TcpConnectionPtr conn){ c->open=false; { Ev("close").i("c",c->key).i("st",conn->get_state()).i("id",conn->get_id()).i("k",kbytes(c)); } if(rnd_int(0,2)==0) c_send(c,conn,5); if(rnd_int(0,2)==0) c_state(c,conn); Ev("cbend").i("c",c->key); }
static void quiesce(bool drained){ std::string s="["; for(auto& k: cns){ if(s.size()>1) s+=","; s+="["+std::to_string(k.first)+","+std::to_string(kbytes(k.second))+"]"; } Ev("quiesce").b("drained",drained).raw("k",s+"]").i("now",us()); }
static void drain_all(){ for(int z=0;z<400;z++){ bool any=false; for(auto& k: cns) while(p_recv(k.second,1000)) any=true; settle(); for(auto& k: cns) if(k.second->pfd>=0&&!k.second->eof&&fd_readable(k.second->pfd)) any=true; if(!any) break; } }
static void net_setup(){
    cns.clear(); nextmsg=0; g_sent=0; memset(g_polled,0,sizeof g_polled); int rx[]={64,100,300,1000,4096}; kopt.sock_rxcap=rx[rnd_int(0,4)]; kopt.short_io=param("short",rnd_int(0,1)); kopt.spurious_eagain=param("eagain",rnd_int(0,2)==0); kopt.poll_order=param("order",rnd_int(0,3)==0);
    on_fd_close=[](int fd,const char* kind){ for(auto& k: cns) if(k.second->sfd==fd){ k.second->sfd=-1; Ev("fdclose").i("c",k.first); } };
    on_poll=[]{ int& p=g_polled[tid()&63]; if(p!=g_sent){ p=g_sent; Ev("poll"); } };
    shutp=param("shutp",0); g_stats=param("stats",0);
}
// ------------------------------------------------------------------------------------------ TcpConnection on its own loop
static Looper* lp;
VS_SCENARIO(conn){
    int before=open_fds(); net_setup(); int ns=param("ns",-1); if(ns<0) ns=rnd_int(0,2); int end=param("end",-1); if(end<0) end=rnd_int(0,4); int ops=param("ops",3); bool stall=rnd_int(0,3)==0; static bool use_sc; use_sc=rnd_int(0,3)!=0; static int period; period=g_stats;
    static Cn* c; c=new Cn; c->key=0; cns[0]=c; c->budget=rnd_int(0,6); c->base=rnd_int(0,250);
    static int ctl[2]; int sv[2]; { EnvScope e; socketpair(AF_UNIX,SOCK_STREAM,0,sv); socketpair(AF_UNIX,SOCK_STREAM|SOCK_NONBLOCK,0,ctl); fcntl(sv[1],F_SETFL,O_NONBLOCK); } c->pfd=sv[1]; c->sfd=sv[0]; c->open=true; int rx2=kopt.sock_rxcap; { EnvScope e; set_rxcap(sv[0],rx2); }
    static sys_api::signal_t up; up=sys_api::signal_create(); int initial=rnd_int(0,2); bool late=rnd_int(0,3)==0; set_cfg(std::string("{\"n\":1,\"sc\":")+(use_sc?"true":"false")+"}");
    if(rnd_int(0,2)==0) p_send(c,msize());
    std::thread lt([=]{
        lp=Looper::create_looper(); c->conn=std::make_shared<TcpConnection>(7,sv[0],lp,nullptr); TcpConnectionPtr conn=c->conn;
        if(period&&(c->stat=rnd_int(0,3)!=0)){ conn->start_read_statistics(1000000); conn->start_write_statistics(1000000); }
        conn->set_on_message([=](TcpConnectionPtr p){ cb_message(c,p); }); if(use_sc) conn->set_on_send_complete([=](TcpConnectionPtr p){ cb_sendc(c,p); }); conn->set_on_close([=](TcpConnectionPtr p){ cb_close(c,p); });
        { Ev("new").i("c",0).i("st",conn->get_state()).i("id",conn->get_id()).b("nb",fd_nonblock(sv[0])).i("pport",conn->get_peer_addr().get_port()).i("xport",sock_local_port(sv[1])).i("lport",conn->get_local_addr().get_port()).i("ylport",sock_local_port(sv[0])); }
        Looper::event_id_t ctle=lp->register_event(ctl[0],Looper::kRead,nullptr,[=](Looper::event_id_t,socket_t fd,Looper::event_t,void*){ char x; while(read(fd,&x,1)==1){ TcpConnectionPtr q=c->conn; if(x=='q') lp->push_stop_request(); else if(x=='S') c_shut(c,q); else if(x=='s') c_send(c,q,msize()); else if(x=='t') c_stats(c,q); } },nullptr);
        sys_api::signal_notify(up); if(!late) for(int k=0;k<initial;k++) c_send(c,conn,msize());
        conn.reset(); lp->loop(); lp->delete_event(ctle); TcpConnectionPtr last=c->conn; c->conn.reset(); last.reset(); Looper* l=lp; lp=nullptr; Looper::destroy_looper(l);
    });
    sys_api::signal_wait(up); std::vector<std::thread*> ts; auto ctlw=[=](char x){ EnvScope e; (void)!send(ctl[1],&x,1,MSG_NOSIGNAL); };
    for(int s=0;s<ns;s++) ts.push_back(new std::thread([=]{ TcpConnectionPtr conn=c->conn; if(!conn) return; for(int k=0;k<ops;k++){ int w=rnd_int(0,7); if(w==0) settle(); else if(w==1) sleep_ms(1); else if(w==2) c_state(c,conn); c_send(c,conn,msize()); } conn.reset(); }));
    std::thread env([=]{ int n=rnd_int(2,14); if(stall){ settle(); settle(); } for(int k=0;k<n;k++){ if(rnd_int(0,4)==0) ctlw(rnd_int(0,param("ctlshut",4))?'s':'S'); peer_op(c,end,end!=0); } });
    for(auto t: ts){ t->join(); delete t; } env.join();
    if(rnd_int(0,1)){ settle(); quiesce(false); }
    drain_all(); quiesce(true);
    if(c->open){ if(rnd_int(0,period?0:3)==0) { ctlw('t'); settle(); } int w=rnd_int(0,3); if(w==0) p_close(c); else if(w==1) p_shut(c); else if(w==2){ ctlw('s'); ctlw('S'); } else ctlw('S'); drain_all(); quiesce(true); }
    ctlw('q'); lt.join(); sys_api::signal_destroy(up); { EnvScope e; if(c->pfd>=0) close(c->pfd); close(ctl[0]); close(ctl[1]); }
    settle(); Ev("closed").i("fds",open_fds()-before); Ev("fin");
}
// ------------------------------------------------------------------------------------------ a server, its clients and its users
static TcpServer* sv; static int nkey; static bool g_sc, g_joined, g_envdone; static std::vector<int> sports; static bool g_stop;
static Cn* by_conn(TcpConnectionPtr p){ int fd=p->get_socket(); for(auto& k: cns) if(k.second->sfd==fd) return k.second; return nullptr; }
static Cn* c_connect(int x){ EnvScope e; if(nkey>=40) return nullptr; int port=sports[x]; int fd=socket(AF_INET,SOCK_STREAM|SOCK_NONBLOCK,0); sockaddr_in a; memset(&a,0,sizeof a); a.sin_family=AF_INET; a.sin_port=htons(port); a.sin_addr.s_addr=htonl(INADDR_LOOPBACK);
    connect(fd,(sockaddr*)&a,sizeof a); int err=0; socklen_t l=sizeof err; getsockopt(fd,SOL_SOCKET,SO_ERROR,&err,&l); bool ok=err==0; int key=nkey;
    if(ok){ Cn* c=new Cn; c->key=nkey++; c->pfd=fd; c->port=sock_local_port(fd); c->base=rnd_int(0,250); c->budget=rnd_int(0,4); cns[c->key]=c; Ev("cconn").i("c",key).i("x",x).b("ok",true); return c; }
    { Ev("cconn").i("c",-1).i("x",x).b("ok",false); } close(fd); return nullptr; }
static std::vector<Cn*> live(bool told){ std::vector<Cn*> v; for(auto& k: cns) if(told?(k.second->told&&k.second->conn):k.second->pfd>=0) v.push_back(k.second); return v; }
static void client_ops(int n,int end,int maxc){
    for(int k=0;k<n;k++){ auto v=live(false); if(v.empty()||((int)v.size()<maxc&&rnd_int(0,2)==0)){ c_connect(rnd_int(0,(int)sports.size()-1)); if(rnd_int(0,2)==0) point(); continue; } peer_op(v[rnd_int(0,(int)v.size()-1)],end,end!=0); }
}
static int cmdseq[16];
static void cmd_send(int s,int d,int cnt,int form){
    std::string m="["; std::vector<Packet*> ps; std::vector<std::string> body;
    for(int k=0;k<cnt;k++){ int id=10+s*1000+(cmdseq[s]++); int b=(id*13)%251, n=rnd_int(0,3)==0?0:rnd_int(1,60); std::string d2=pattern(b,n); Packet* p=Packet::alloc_packet(); p->build_from_memory(4,(uint16_t)id,(uint16_t)n,n?d2.data():nullptr); ps.push_back(p); body.push_back(d2); if(k) m+=","; m+="["+std::to_string(id)+","+std::to_string(b)+","+std::to_string(n)+"]"; }
    { Ev("csend").i("d",d).i("s",s).raw("m",m+"]"); }
    if(d==0){ for(int k=0;k<cnt;k++) if(form==0) sv->send_master_message(ps[k]); else sv->send_master_message(ps[k]->get_packet_id(),(uint16_t)body[k].size(),body[k].data()); }
    else if(form==0) for(int k=0;k<cnt;k++) sv->send_work_message(d-1,ps[k]); else sv->send_work_message(d-1,(const Packet**)ps.data(),cnt);
    { Ev("csent").i("d",d).i("s",s); } for(auto p: ps) Packet::free_packet(p);
}
static void sv_stop(const char* who){ { Ev("stop").s_("who",who); } sv->stop(); { Ev("stopd").s_("who",who); } }
static void sv_shutreq(Cn* c){ TcpConnectionPtr p=c->conn; if(!p) return; { Ev("shutreq").i("c",c->key); } sv->shutdown_connection(p); }
// what a callback on thread d may do to the server: commands to any thread, closing somebody else's connection, stopping it (the master only)
static int g_cbcmd, g_cbstop;
static void sv_cbwork(int d,const char* where){
    if(!g_cbcmd||rnd_int(0,g_cbcmd)!=0||cmdseq[5+d]>900) return;
    int w=rnd_int(0,5);
    if(w==0&&where[0]!='s'){ auto v=live(true); if(!v.empty()) sv_shutreq(v[rnd_int(0,(int)v.size()-1)]); }
    else if(w==1&&g_cbstop&&where[0]=='s') sv_stop(d==0?"master":"worker");
    else cmd_send(5+d,rnd_int(0,sv->get_work_thread_counts()),rnd_int(1,2),rnd_int(0,1));
}
static void on_cmd(int d,Packet* p){
    int id=p->get_packet_id(); { Ev("cmd").i("d",d).i("id",id).i("s",(id-10)/1000).i("n",p->get_packet_size()).raw("b",runs((const uint8_t*)p->get_packet_content(),p->get_packet_size())); }
    int s=(id-10)/1000; if(s==9) sv_stop(d==0?"master":"worker");
    else if(s<5&&rnd_int(0,5)==0&&cmdseq[5+d]<900) cmd_send(5+d,rnd_int(0,sv->get_work_thread_counts()),1,rnd_int(0,1)); else if(s<5) sv_cbwork(d,"cmd");
}
static void sv_callbacks(){
    g_cbcmd=param("cbcmd",0); g_cbstop=param("cbstop",0);
    sv->m_listener.on_master_thread_start=[](TcpServer*,Looper* l){ { Ev("wstart").i("d",0).b("lp",l!=nullptr); } sv_cbwork(0,"start"); };
    sv->m_listener.on_work_thread_start=[](TcpServer*,int32_t i,Looper* l){ { Ev("wstart").i("d",i+1).b("lp",l!=nullptr); } sv_cbwork(i+1,"start"); };
    sv->m_listener.on_master_thread_command=[](TcpServer*,Packet* p){ on_cmd(0,p); };
    sv->m_listener.on_work_thread_command=[](TcpServer*,int32_t i,Packet* p){ on_cmd(i+1,p); };
    sv->m_listener.on_connected=[](TcpServer*,int32_t i,TcpConnectionPtr conn){ Cn* c=by_conn(conn); { Ev("connected").i("c",c?c->key:-1).i("d",i+1).i("id",conn->get_id()).i("st",conn->get_state()).b("own",conn->get_owner()&&conn->get_owner()->get_connection_owner_type()==TcpConnection::Owner::kServer); } if(!c) return;
        c->told=c->open=true; c->conn=conn; if(g_stats&&(c->stat=rnd_int(0,3)!=0)){ conn->start_read_statistics(1000000); conn->start_write_statistics(1000000); }
        if(g_sc) conn->set_on_send_complete([c](TcpConnectionPtr p){ cb_sendc(c,p); }); sv_cbwork(i+1,"conn"); cb_work(c,conn,true); Ev("cbend").i("c",c->key); };
    sv->m_listener.on_message=[](TcpServer*,int32_t i,TcpConnectionPtr conn){ Cn* c=by_conn(conn); if(!c){ Ev("stray").i("d",i+1); return; } sv_cbwork(i+1,"msg"); cb_message(c,conn); };
    sv->m_listener.on_close=[](TcpServer*,int32_t i,TcpConnectionPtr conn){ Cn* c=by_conn(conn); if(!c){ Ev("stray").i("d",i+1); return; } cb_close(c,conn); sv_cbwork(i+1,"close"); };
}
static int sv_bind(int want,bool occupied){ int before=open_fds(); kopt.sock_fail=kopt.fcntl_fail=param("bfail",0)&&want>=0&&rnd_int(0,2)==0; if(want<0) want=-want-1; bool ok=sv->bind(Address(want,true)); kopt.sock_fail=kopt.fcntl_fail=false; { Ev("bind").i("p",want).b("occ",occupied).b("ok",ok).i("fds",open_fds()-before); } if(!ok) return -1; int x=(int)sports.size(); Address a=sv->get_bind_address(x); { Ev("gba").i("x",x).i("p",a.get_port()).s_("ip",a.get_ip()); } sports.push_back(a.get_port()); return x; }
static void sv_gba(){ int x=rnd_int(0,(int)sports.size()); Address a=sv->get_bind_address(x); Ev("gba").i("x",x).i("p",a.get_port()).s_("ip",a.get_ip()); }
static void sv_stoplisten(){ int x=rnd_int(0,(int)sports.size()-1); { Ev("slisten").i("x",x); } sv->stop_listen(x); Ev("slistend").i("x",x); }
VS_SCENARIO(server){
    int before=open_fds(); net_setup(); nkey=0; g_joined=g_stop=g_envdone=false; sports.clear(); memset(cmdseq,0,sizeof cmdseq); g_sc=rnd_int(0,2)!=0;
    int nw=param("nw",-1); if(nw<0) nw=rnd_int(1,3); int np=param("np",-1); if(np<0) np=rnd_int(1,3); int end=param("end",-1); if(end<0) end=rnd_int(0,4); int ops=param("ops",3); int nt=param("nt",-1); if(nt<0) nt=rnd_int(0,2); int cl=param("cl",6); int maxc=param("maxc",3);
    int how=param("how",-1); if(how<0) how=rnd_int(0,3); bool early=param("early",rnd_int(0,2)==0); int slist=param("slist",rnd_int(0,2)); int stw=param("stw",rnd_int(0,3)==0); kopt.accept_fail=param("afail",rnd_int(0,5)==0); bool nostart=param("nostart",0); int cmds=param("cmds",1);
    set_cfg("{\"n\":1,\"sc\":"+std::string(g_sc?"true":"false")+",\"nw\":"+std::to_string(nw)+"}");
    on_net=[](int fd,const char* what,int port,int res){ if(std::string(what)!="accept"||res) return; int pp=sock_peer_port(fd); for(auto& k: cns) if(k.second->port==pp&&!k.second->accepted){ k.second->accepted=true; k.second->sfd=fd; Ev("accept").i("c",k.first); return; } Ev("accept").i("c",-1); };
    sv=new TcpServer(); sv_callbacks(); int blocker=-1;
    for(int k=0;k<np;k++){ int want=rnd_int(0,2)==0?0:20000+k; if(sv_bind(want,false)<0&&param("bfail",0)) sv_bind(-want-1,false); if(rnd_int(0,4)==0){ { EnvScope e; if(blocker<0){ blocker=socket(AF_INET,SOCK_STREAM,0); sockaddr_in a; memset(&a,0,sizeof a); a.sin_family=AF_INET; a.sin_port=htons(25000); bind(blocker,(sockaddr*)&a,sizeof a); listen(blocker,5); } } sv_bind(25000,true); } }
    if(rnd_int(0,2)==0) c_connect(rnd_int(0,np-1));
    if(nostart){ if(rnd_int(0,1)) sv_gba(); delete sv; sv=nullptr; { EnvScope e; if(blocker>=0) close(blocker); } for(int k=0;k<np;k++) c_connect(k); Ev("closed").i("fds",open_fds()-before-0).b("ran",false); Ev("fin"); return; }
    if(rnd_int(0,3)==0){ int bad=rnd_int(0,1)?0:33; bool ok=sv->start(bad); Ev("started").i("n",bad).b("ok",ok); }
    { Ev("start").i("n",nw); } bool ok=sv->start(nw); { Ev("started").i("n",nw).b("ok",ok); }
    if(rnd_int(0,5)==0){ bool ok2=sv->start(nw); Ev("started").i("n",-1).b("ok",ok2); bool ok3=sv->bind(Address(0,true)); Ev("bind").i("p",0).b("occ",true).b("ok",ok3).i("fds",0); }
    auto user=[=](int s){ if(rnd_int(0,2)){ block_until([]{ if(g_envdone||g_stop) return true; for(auto& k: cns) if(k.second->told) return true; return false; }); for(int z=rnd_int(0,6);z>0;z--) point(); } for(int k=0;k<ops;k++){ if(g_stop) break; int w=rnd_int(0,9);
        if(w<4){ if(cmds) cmd_send(s,rnd_int(0,nw),rnd_int(1,3),rnd_int(0,1)); }
        else if(w<6){ auto v=live(true); if(!v.empty()) sv_shutreq(v[rnd_int(0,(int)v.size()-1)]); else point(); }
        else if(w<7){ auto v=live(true); if(!v.empty()){ Cn* c=v[rnd_int(0,(int)v.size()-1)]; TcpConnectionPtr p=c->conn; c_send(c,p,msize()); if(rnd_int(0,2)==0) c_state(c,p); } }
        else if(w==7){ if(slist>0) sv_stoplisten(); else sv_gba(); } else if(w==8) settle(); else sleep_ms(1); } };
    g_quitp=param("quitp",rnd_int(0,2)); std::vector<std::thread*> ts; std::thread env([=]{ client_ops(cl,end,maxc); g_envdone=true; });
    for(int s=0;s<nt;s++) ts.push_back(new std::thread([=]{ user(s); }));
    if(nt==0&&rnd_int(0,1)&&early) user(0);
    std::thread* stopper=nullptr;
    if(!early){
        for(auto t: ts){ t->join(); delete t; } ts.clear(); env.join();
        if(rnd_int(0,2)==0){ settle(); quiesce(false); }
        if(slist>1){ sv_stoplisten(); if(rnd_int(0,1)) sv_stoplisten(); }
        if(stw){ cmd_send(9,rnd_int(1,nw),1,0); settle(); }
        drain_all(); quiesce(true); for(int k=0;k<np;k++) if(rnd_int(0,1)) c_connect(k); if(rnd_int(0,1)) for(int z=0;z<2;z++){ auto v=live(false); if(!v.empty()) p_send(v[rnd_int(0,(int)v.size()-1)],msize()); }
        if(rnd_int(0,1)){ drain_all(); quiesce(true); }
    } else { int z=rnd_int(0,12); if(rnd_int(0,2)) block_until([]{ if(g_envdone) return true; for(auto& k: cns) if(k.second->told) return true; return false; }); for(int k=0;k<z;k++) point(); if(rnd_int(0,3)==0) settle(); }
    // somebody keeps reading so that pending data can be delivered
    std::thread drain([=]{ for(;;){ block_until([]{ if(g_joined) return true; for(auto& k: cns) if(k.second->pfd>=0&&!k.second->eof&&fd_readable(k.second->pfd)) return true; return false; }); if(g_joined) break; for(auto& k: cns) if(k.second->pfd>=0) p_recv(k.second,1000); } });
    for(auto t: ts){ t->join(); delete t; } ts.clear();
    if(how==0) sv_stop("main"); else if(how==1) cmd_send(9,0,1,rnd_int(0,1)); else if(how==2){ stopper=new std::thread([]{ sv_stop("other"); }); } else { sv_stop("main"); sv_stop("main"); }
    g_stop=true;
    { Ev("join"); } sv->join(); { Ev("joined"); } g_joined=true; drain.join(); if(early) env.join(); if(stopper){ stopper->join(); delete stopper; }
    settle(); for(int k=0;k<np;k++) if(rnd_int(0,1)) c_connect(k);
    if(rnd_int(0,1)) sv_gba();
    for(auto& k: cns) if(k.second->conn&&rnd_int(0,2)==0){ TcpConnectionPtr p=k.second->conn; c_state(k.second,p); c_send(k.second,p,9); if(rnd_int(0,g_stats?0:3)==0) c_stats(k.second,p); }
    bool first=rnd_int(0,1); if(first) for(auto& k: cns) k.second->conn.reset(); delete sv; sv=nullptr; for(auto& k: cns) k.second->conn.reset();
    { EnvScope e; if(blocker>=0) close(blocker); for(auto& k: cns) if(k.second->pfd>=0) close(k.second->pfd); }
    settle(); Ev("closed").i("fds",open_fds()-before).b("ran",true); Ev("fin");
}
// a few connections, then stop together with one other thing: small enough for systematic schedules
VS_SCENARIO(sstop){
    int before=open_fds(); net_setup(); kopt.short_io=kopt.spurious_eagain=kopt.poll_order=false; kopt.accept_fail=false; nkey=0; g_joined=g_stop=g_envdone=false; sports.clear(); memset(cmdseq,0,sizeof cmdseq); g_sc=false; int nw=param("nw",1), nc=param("nc",1), a=param("a",-1); if(a<0) a=rnd_int(0,6); int b=param("b",-1); if(b<0) b=rnd_int(0,6);
    set_cfg("{\"n\":1,\"sc\":false,\"nw\":"+std::to_string(nw)+"}");
    on_net=[](int fd,const char* what,int port,int res){ if(std::string(what)!="accept"||res) return; int pp=sock_peer_port(fd); for(auto& k: cns) if(k.second->port==pp&&!k.second->accepted){ k.second->accepted=true; k.second->sfd=fd; Ev("accept").i("c",k.first); return; } Ev("accept").i("c",-1); };
    calm(param("calm",0)); sv=new TcpServer(); sv_callbacks(); sv_bind(0,false); { Ev("start").i("n",nw); } { bool ok=sv->start(nw); Ev("started").i("n",nw).b("ok",ok); } settle(); for(int k=0;k<nc;k++){ c_connect(0); settle(); } for(auto& k: cns) k.second->budget=0; quiesce(false); calm(false);
    auto act=[=](int w,int s){ Cn* c=nc?cns[s%nc]:nullptr; switch(w){ case 0: if(c) sv_shutreq(c); break; case 1: if(c) p_close(c); break; case 2: c_connect(0); break; case 3: sv_stoplisten(); break; case 4: if(c) p_reset(c); break; case 5: if(c){ TcpConnectionPtr p=c->conn; c_send(c,p,30); } break; case 6: cmd_send(1+s,rnd_int(0,nw),1,0); break; } };
    std::thread t1([=]{ act(a,0); }), t2([=]{ if(param("two",1)) act(b,1); });
    std::thread drain([=]{ for(;;){ block_until([]{ if(g_joined) return true; for(auto& k: cns) if(k.second->pfd>=0&&!k.second->eof&&fd_readable(k.second->pfd)) return true; return false; }); if(g_joined) break; for(auto& k: cns) if(k.second->pfd>=0) p_recv(k.second,1000); } });
    sv_stop("main"); t1.join(); t2.join(); { Ev("join"); } sv->join(); { Ev("joined"); } g_joined=true; drain.join(); delete sv; sv=nullptr; for(auto& k: cns) k.second->conn.reset();
    { EnvScope e; for(auto& k: cns) if(k.second->pfd>=0) close(k.second->pfd); } Ev("closed").i("fds",open_fds()-before).b("ran",true); Ev("fin");
}
// ------------------------------------------------------------------------------------------ a client, the port it connects to and its users
static TcpClientPtr* cli; static int cport, clfd, nattempt, curk, tries; static bool cli_up, cli_gone, in_fail;
static const int PORT=21000;
static void next_policy(){ switch(rnd_int(0,11)){
    case 0: set_connect_policy(PORT,CP_REFUSE,0); break; case 1: set_connect_policy(PORT,CP_UNREACH,0); break; case 2: set_connect_policy(PORT,param("hang",1)?CP_HANG:CP_REFUSE,0); break;
    case 3: set_connect_policy(PORT,CP_DELAY_REFUSE,rnd_int(1,6)); break; case 4: set_connect_policy(PORT,CP_TIMEOUT,rnd_int(5,15)); break;
    case 5: case 6: case 7: set_connect_policy(PORT,CP_DELAY,rnd_int(1,8)); break; default: set_connect_policy(PORT,CP_AUTO,0); } }
static bool p_accept(){ EnvScope e; if(clfd<0) return false; int fd=accept4(clfd,nullptr,nullptr,SOCK_NONBLOCK); if(fd<0) return false; int pp=sock_peer_port(fd); for(auto& k: cns) if(k.second->port==pp&&k.second->pfd<0&&!k.second->accepted){ k.second->accepted=true; k.second->pfd=fd; Ev("paccept").i("c",k.first); return true; } close(fd); return false; }
static void cl_connect(){ tries++; { Ev("cc").i("now",us()); } bool ok=(*cli)->connect(Address("127.0.0.1",PORT)); { Ev("ccr").b("ok",ok).i("sp",(*cli)->get_server_address().get_port()); } }
static void cl_disc(){ { Ev("disc"); } (*cli)->disconnect(); { Ev("discd"); } }
static void cl_state(bool loop){ { Ev("csi"); } TcpConnection::State v=(*cli)->get_connection_state(); { Ev("cs").i("v",v).b("loop",loop); } }
static void cl_send(int n,bool other=false){ int me=tid()&63; if(insend[me]) return; Cn* c=cli_up?cns[curk]:nullptr; if(!c&&other) c=cns[nkey-1]; insend[me]=1; int b=(nextmsg*37)%251; nextmsg++; std::string d=pattern(b,n); if(c) { Ev("send").i("c",c->key).i("b",b).i("n",n); } else { Ev("csnd").i("b",b).i("n",n); } (*cli)->send(d.data(),d.size()); if(c){ Ev("sent").i("c",c->key); g_sent++; } insend[me]=0; }
static void cl_drop(){ if(!*cli) return; { Ev("drop"); } cli->reset(); cli_gone=true; }
static void cl_cb(){ // something a callback of an established connection may do with the client
    if(!*cli) return; switch(rnd_int(0,7)){ case 0: cl_disc(); break; case 1: cl_state(true); break; case 2: case 3: cl_send(msize()); break; default: break; } }
static void client_setup(int maxtry,bool mayd){
    auto mk=[=]{ TcpClientPtr p=std::make_shared<TcpClient>(lp,(void*)&cport,9); return p; };
    *cli=mk(); { Ev("cnew").i("st",(*cli)->get_connection_state()).b("par",(*cli)->get_param()==(void*)&cport).b("own",(*cli)->get_connection_owner_type()==TcpConnection::Owner::kClient); }
    (*cli)->m_listener.on_connected=[=](TcpClientPtr p,TcpConnectionPtr conn,bool ok)->uint32_t{
        if(ok){ Cn* c=nullptr; for(auto& k: cns) if(k.second->sfd==conn->get_socket()) c=k.second;
            { Ev("oc").b("ok",true).i("c",c?c->key:-1).i("st",conn->get_state()).i("id",conn->get_id()).b("same",p==*cli).i("now",us()); } if(!c) return 0;
            c->told=c->open=true; curk=c->key; c->conn=conn; cli_up=true; if(g_stats&&(c->stat=rnd_int(0,3)!=0)){ conn->start_read_statistics(1000000); conn->start_write_statistics(1000000); }
            if(g_sc) conn->set_on_send_complete([c](TcpConnectionPtr q){ cb_sendc(c,q); });
            cb_work(c,conn,true); cl_cb(); { Ev("ocr").b("ok",true).i("ret",0).i("now",us()); } return 0; }
        { Ev("oc").b("ok",false).i("c",-1).b("null",conn==nullptr).b("same",p==*cli).i("now",us()); }
        uint32_t ret=tries<maxtry&&rnd_int(0,3)?rnd_int(1,12):0; if(ret) tries++;
        switch(rnd_int(0,9)){ case 0: cl_disc(); break; case 1: if(tries<maxtry){ cl_disc(); cl_connect(); } break; case 2: if(tries<maxtry) cl_connect(); break; case 3: if(mayd&&rnd_int(0,2)==0) cl_drop(); break; case 4: cl_state(true); break; default: break; }
        { Ev("ocr").b("ok",false).i("ret",ret).i("now",us()); } return ret; };
    (*cli)->m_listener.on_message=[=](TcpClientPtr p,TcpConnectionPtr conn){ Cn* c=by_conn(conn); if(!c||p!=*cli){ Ev("stray"); return; } cb_message(c,conn); cl_cb(); };
    (*cli)->m_listener.on_close=[=](TcpClientPtr p,TcpConnectionPtr conn){ Cn* c=by_conn(conn); if(!c||p!=*cli){ Ev("stray"); return; } cb_close(c,conn); c->conn.reset(); if(rnd_int(0,3)==0) cl_disc(); if(rnd_int(0,3)==0) cl_state(true); if(rnd_int(0,3)==0) cl_send(7); if(mayd&&rnd_int(0,3)==0) cl_drop(); };
}
VS_SCENARIO(client){
    int before=open_fds(); net_setup(); kopt.sock_fail=param("sfail",0)!=0; g_stats=false; nkey=0; nattempt=0; curk=-1; tries=0; cli_up=cli_gone=false; static bool loopend; loopend=false; g_sc=rnd_int(0,2)!=0; int ns=param("ns",-1); if(ns<0) ns=rnd_int(0,2); int end=param("end",-1); if(end<0) end=rnd_int(0,4); int ops=param("ops",3), ctl_n=param("ctl",8); int maxtry=param("maxtry",6); kopt.conn_now=param("now",rnd_int(0,3)==0); kopt.time_choice=param("clock",0);
    set_cfg(std::string("{\"n\":1,\"sc\":")+(g_sc?"true":"false")+",\"id\":9,\"clock\":"+(kopt.time_choice?"true":"false")+"}"); set_connect_policy(PORT,CP_AUTO,0); if(rnd_int(0,2)) next_policy();
    { EnvScope e; clfd=socket(AF_INET,SOCK_STREAM|SOCK_NONBLOCK,0); sockaddr_in a; memset(&a,0,sizeof a); a.sin_family=AF_INET; a.sin_port=htons(PORT); a.sin_addr.s_addr=htonl(INADDR_LOOPBACK); bind(clfd,(sockaddr*)&a,sizeof a); if(rnd_int(0,5)) ::listen(clfd,10); }
    on_net=[](int fd,const char* what,int port,int res){ if(port!=PORT) return; std::string w=what;
        if(w=="connect"){ Cn* c=new Cn; c->key=nkey++; c->sfd=fd; c->base=rnd_int(0,250); c->budget=rnd_int(0,4); cns[c->key]=c; { Ev("attempt").i("c",c->key).i("err",res).i("now",us()); } next_policy(); }
        else if(w=="connect_done") for(auto& k: cns) if(k.second->sfd==fd){ k.second->port=sock_local_port(fd); Ev("adone").i("c",k.first).i("err",res); } };
    static int ctl[2]; { EnvScope e; socketpair(AF_UNIX,SOCK_STREAM|SOCK_NONBLOCK,0,ctl); } static sys_api::signal_t up; up=sys_api::signal_create(); cli=new TcpClientPtr; bool mayd=param("drop",rnd_int(0,1))&&ns==0; bool first=rnd_int(0,1);
    std::thread lt([=]{
        lp=Looper::create_looper(); client_setup(maxtry,mayd);
        Looper::event_id_t ctle=lp->register_event(ctl[0],Looper::kRead,nullptr,[=](Looper::event_id_t,socket_t fd,Looper::event_t,void*){ char x; while(read(fd,&x,1)==1){ if(x=='q'){ lp->push_stop_request(); continue; } if(!*cli) continue;
            int st=(*cli)->get_connection_state(); Cn* c=cli_up?cns[curk]:nullptr; TcpConnectionPtr q=c?c->conn:nullptr;
            switch(x){ case 'c': if(st==3&&!cli_up&&tries<maxtry) cl_connect(); break; case 'd': cl_disc(); break; case 'D': if(q) c_shut(c,q); break; case 's': cl_send(msize()); break; case 'g': cl_state(true); break; case 't': if(q) c_stats(c,q); break; case 'r': if(mayd&&(st==0||st==3)) cl_drop(); break; }
        } },nullptr);
        if(first){ if(rnd_int(0,3)==0) cl_send(msize()); cl_connect(); for(int k=rnd_int(0,2);k>0;k--) cl_send(msize()); }
        sys_api::signal_notify(up); lp->loop(); lp->delete_event(ctle); for(auto& k: cns) k.second->conn.reset(); cl_drop(); { Ev("gone"); } Looper* l=lp; lp=nullptr; Looper::destroy_looper(l); loopend=true;
    });
    sys_api::signal_wait(up); std::vector<std::thread*> ts; auto ctlw=[=](char x){ EnvScope e; (void)!send(ctl[1],&x,1,MSG_NOSIGNAL); }; static bool envdone; envdone=false;
    for(int s=0;s<ns;s++) ts.push_back(new std::thread([=]{ for(int k=0;k<ops;k++){ if(rnd_int(0,2)) block_until([]{ return cli_up||envdone||(nkey&&cns[nkey-1]->port); }); if(rnd_int(0,2)==0) for(int z=0;z<12&&!cli_up&&(*cli)->get_connection_state()==TcpConnection::kConnecting;z++) point(); int w=rnd_int(0,7); if(w==0) settle(); else if(w==1) sleep_ms(1); else if(w<=3) cl_state(false); if(cli_up||(nkey&&(*cli)->get_connection_state()==TcpConnection::kConnected)) cl_send(msize(),true); } }));
    std::thread env([=]{ int n=rnd_int(2,14); int k2=ctl_n; for(int k=0;k<n;k++){
        if(k2>0&&rnd_int(0,1)){ k2--; const char* ops="cccsssgggdDtr"; char x=ops[rnd_int(0,12)]; ctlw(x); }
        int w=rnd_int(0,5); if(w==0) sleep_ms(rnd_int(1,12)); else if(w==1) p_accept(); else if(w==2&&rnd_int(0,5)==0){ EnvScope e; if(rnd_int(0,1)) ::listen(clfd,10); }
        else { auto v=live(false); if(v.empty()) p_accept(); else peer_op(v[rnd_int(0,(int)v.size()-1)],end,end!=0); } } envdone=true; });
    for(auto t: ts){ t->join(); delete t; } env.join();
    auto drain=[]{ for(int z=0;z<50;z++){ bool any=false; while(p_accept()) any=true; drain_all(); settle(); EnvScope e; if(fd_readable(clfd)) any=true; if(!any) break; } };
    if(rnd_int(0,1)){ settle(); quiesce(false); }
    if(rnd_int(0,2)){ drain(); quiesce(true); } if(rnd_int(0,2)){ ctlw('c'); ctlw('s'); }
    if(rnd_int(0,2)){ sleep_ms(rnd_int(1,90)); drain(); quiesce(true); }
    if(rnd_int(0,2)) ctlw('g');
    bool alive=cli_up&&cns[curk]->open; if(alive||rnd_int(0,1)){ if(alive&&rnd_int(0,1)){ Cn* c=cns[curk]; int w=rnd_int(0,2); drain(); if(w==0) p_close(c); else if(w==1) p_shut(c); else ctlw('D'); drain(); } ctlw('d'); drain(); quiesce(true); if(rnd_int(0,1)){ sleep_ms(30); drain(); quiesce(true); } }
    // a live connection has to be ended before its client may go
    for(int z=0;z<5&&cli_up&&cns[curk]->open;z++){ ctlw('d'); drain(); }
    if(!cli_up){ for(int z=0;z<3&&!cli_gone;z++){ ctlw('d'); drain(); if(!(cli_up&&cns[curk]->open)) break; } }
    ctlw('q'); lt.join(); sys_api::signal_destroy(up); drain(); delete cli; cli=nullptr; { EnvScope e; for(auto& k: cns) if(k.second->pfd>=0) close(k.second->pfd); close(ctl[0]); close(ctl[1]); close(clfd); clfd=-1; }
    settle(); Ev("closed").i("fds",open_fds()-before); Ev("fin");
}
int main(int c,char** v){ return run_main(c,v); }
